"""P23: recurrent states and the split over devices."""
from pyvc.types import *
from pyvc.vc import World, Loop

F = 'theanolm/network/recurrentstate.py::RecurrentState'
B = 'theanolm/network/basiclayer.py::BasicLayer'

SHAPED = ('len({s}._state_variables) == len({s}.sizes) and forall(len({s}.sizes), lambda v: '
          '{s}._state_variables[v].shape[0] == 1 and {s}._state_variables[v].shape[1] == {s}.num_sequences and '
          '{s}._state_variables[v].shape[2] == {s}.sizes[v])')


def states(w):
    w.heap_class('RecurrentState', F, sizes='list[int]', num_sequences='int', _state_variables='list[ten3[real]]')
    frame = ['eqt(self.sizes, old(self.sizes))', 'self.num_sequences == old(self.num_sequences)']
    w.contract(F + '.reset', requires=['self.num_sequences >= 0', 'forall(self.sizes, lambda v: self.sizes[v] >= 0)'],
               modifies=['self._state_variables'],
               ensures=[SHAPED.format(s='self'),
                        'forall(len(self.sizes), lambda v: forall(self.num_sequences, lambda c: forall(self.sizes[v], '
                        'lambda b: self._state_variables[v][0, c, b] == 0)))'] + frame,
               loops=[Loop(inv=['len(self._state_variables) == _k',
                                'forall(_k, lambda v: self._state_variables[v].shape[0] == 1 and '
                                'self._state_variables[v].shape[1] == self.num_sequences and '
                                'self._state_variables[v].shape[2] == self.sizes[v])',
                                'forall(_k, lambda v: forall(self.num_sequences, lambda c: forall(self.sizes[v], '
                                'lambda b: self._state_variables[v][0, c, b] == 0)))'] + [f.replace('old(', 'entry(') for f in frame])])
    bad = ('len(state_variables) != len(self.sizes) or exists(len(self.sizes), lambda v: state_variables[v].shape[0] != 1 or '
           'state_variables[v].shape[1] != self.num_sequences or state_variables[v].shape[2] != self.sizes[v])')
    w.contract(F + '.set', params={'state_variables': 'list[ten3[real]]'},
               raises={'ValueError': bad}, modifies=['self._state_variables'],
               ensures=['eqt(self._state_variables, state_variables)', SHAPED.format(s='self')] + frame,
               opts={'ensures_raise': ['self._state_variables == old(self._state_variables)'] + frame},
               loops=[Loop(inv=['forall(_k, lambda v: state_variables[v].shape[0] == 1 and '
                                'state_variables[v].shape[1] == self.num_sequences and state_variables[v].shape[2] == self.sizes[v])'])])
    w.contract(F + '.get', variant='one', params={'index': 'int'}, requires=['0 <= index < len(self._state_variables)'],
               ensures=['result == self._state_variables[index]'], returns='ten3[real]')
    w.contract(F + '.get', variant='all', params={'index': lambda vc: None},
               ensures=['result == self._state_variables'], returns='list[ten3[real]]')
    w.contract(F + '.combine_sequences', params={'states': 'list[ref[RecurrentState]]'}, returns='ref[RecurrentState]',
               raises={'ValueError': 'len(states) == 0'},
               requires=['forall(states, lambda i: states[i].num_sequences >= 0 and ' + SHAPED.format(s='states[i]') + ')',
                         'forall(states, lambda i: len(states[i].sizes) == len(states[0].sizes) and '
                         'forall(len(states[0].sizes), lambda v: states[i].sizes[v] == states[0].sizes[v] and states[i].sizes[v] >= 0))'],
               ensures=['result.num_sequences == SUM(len(states), lambda i: states[i].num_sequences)',
                        'result.sizes == states[0].sizes', SHAPED.format(s='result'),
                        'forall(len(states[0].sizes), lambda v: forall(len(states), lambda i: forall(states[i].num_sequences, lambda c: '
                        'forall(states[0].sizes[v], lambda b: result._state_variables[v][0, SUM(i, lambda s: states[s].num_sequences) + c, b] == '
                        'states[i]._state_variables[v][0, c, b]))))'],
               loops=[Loop(types={'sizes': 'list[int]', 'state_variables': 'list[ten3[real]]', 'state_variable': 'ten3[real]'}, inv=['len(sizes) == _k and len(state_variables) == _k',
                                'forall(_k, lambda v: sizes[v] == states[0].sizes[v] and state_variables[v].shape[0] == 1 and '
                                'state_variables[v].shape[1] == num_sequences and state_variables[v].shape[2] == sizes[v])',
                                'forall(_k, lambda v: forall(len(states), lambda i: forall(states[i].num_sequences, lambda c: '
                                'forall(states[0].sizes[v], lambda b: state_variables[v][0, SUM(i, lambda s: states[s].num_sequences) + c, b] == '
                                'states[i]._state_variables[v][0, c, b]))))'])], locals={'sizes': 'list[int]', 'state_variables': 'list[ten3[real]]'}, opts={'budget': 300, 'cost': 10})


def combine_single(w, prove=False):
    """States of one sequence each (the decoder)."""
    w.contract(F + '.combine_sequences', variant='single', params={'states': 'list[ref[RecurrentState]]'}, returns='ref[RecurrentState]', assume_only=not prove, note='P23',
               requires=['len(states) > 0', 'forall(states, lambda i: states[i].num_sequences == 1 and ' + SHAPED.format(s='states[i]') + ')',
                         'forall(states, lambda i: len(states[i].sizes) == len(states[0].sizes) and '
                         'forall(len(states[0].sizes), lambda v: states[i].sizes[v] == states[0].sizes[v] and states[i].sizes[v] >= 0))'],
               ensures=['result.num_sequences == len(states)', 'result.sizes == states[0].sizes', SHAPED.format(s='result'),
                        'forall(len(states[0].sizes), lambda v: forall(len(states), lambda i: '
                        'forall(states[0].sizes[v], lambda b: result._state_variables[v][0, i, b] == states[i]._state_variables[v][0, 0, b])))'],
               loops=[Loop(types={'sizes': 'list[int]', 'state_variables': 'list[ten3[real]]', 'state_variable': 'ten3[real]'},
                           inv=['len(sizes) == _k and len(state_variables) == _k', 'num_sequences == len(states)',
                                'forall(_k, lambda v: sizes[v] == states[0].sizes[v] and state_variables[v].shape[0] == 1 and '
                                'state_variables[v].shape[1] == num_sequences and state_variables[v].shape[2] == sizes[v])',
                                'forall(_k, lambda v: forall(len(states), lambda i: '
                                'forall(states[0].sizes[v], lambda b: state_variables[v][0, i, b] == states[i]._state_variables[v][0, 0, b])))'])],
               locals={'sizes': 'list[int]', 'state_variables': 'list[ten3[real]]'}, opts={'budget': 300})
    if not prove: w.select[F + '.combine_sequences'] = lambda vc, a, k: 'single'


def world():
    w = World()
    states(w)
    combine_single(w, True)
    w.sum_ones = True
    w.record('BasicLayer', B, _devices='list[opt[str]]')
    w.contract(B + '._split_per_device', params={'total_size': 'int'}, returns='list[range]', locals={'result': 'list[range]'},
               raises={'RuntimeError': 'len(self._devices) < 1', 'ValueError': 'len(self._devices) >= 1 and total_size < len(self._devices)'},
               ensures=['len(result) == len(self._devices)', 'result[0].start == 0', 'result[len(result) - 1].stop == total_size',
                        'forall(1, len(result), lambda i: result[i].start == result[i - 1].stop)',
                        'forall(len(result), lambda i: result[i].stop > result[i].start)',
                        'forall(len(result), lambda i: forall(len(result), lambda j: len(result[i]) <= len(result[j]) + 1))'],
               loops=[Loop(types={'end_index': 'int'},
                           inv=['len(result) == _k', 'start_index == _k * quotient + min(_k, remainder)',
                                'implies(_k > 0, end_index == start_index and result[0].start == 0 and result[_k - 1].stop == start_index)',
                                'sum(len(x) for x in result) == start_index',
                                'forall(1, _k, lambda i: result[i].start == result[i - 1].stop)',
                                'forall(_k, lambda i: quotient <= result[i].stop - result[i].start and result[i].stop - result[i].start <= quotient + 1)'])])
    return w
