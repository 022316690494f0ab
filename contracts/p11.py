"""P11: propagation of tokens through a lattice."""
import z3
from pyvc.types import *
from pyvc.vc import World, Loop, BuiltinV, SliceV
from pyvc.builtinsmixin import LOG
from contracts.lat import lattice
from contracts.p03 import some_of
from contracts.p10 import tokens, decimals, LINEAR, LOGLIN, G
from contracts.p23 import states, combine_single, SHAPED
from contracts.vocab import F as V, MEMBER, vocabulary, lookup_contracts

F = 'theanolm/scoring/latticedecoder.py::'
D = F + 'LatticeDecoder.'
R = 'theanolm/network/recurrentstate.py::RecurrentState'
ASSUMPTIONS = ['the step function returns the log probabilities of the target classes and the new recurrent states, computed by the network for each sequence '
               '(column) from its input word, input class and state',
               'the list of state sizes is never modified (treated as a tuple)',
               'log probabilities and membership probabilities are real numbers, with membership probabilities above zero']
W = 'union[int,str]'
TEN = parse_type('list[ten3[real]]')
ISCOL = z3.Function('is_column', TEN.sort, TEN.sort, z3.IntSort(), z3.BoolSort())


def decoder(w):
    lattice(w)
    vocabulary(w)
    lookup_contracts(w)
    tokens(w)
    w.heap_class('Token', F + 'LatticeDecoder.Token', history='htup[%s]' % W, state='ref[RecurrentState]', ac_logprob='real',
                 lat_lm_logprob='real', nn_lm_logprob='real', recombination_hash='opt[int]', graph_logprob='opt[real]', total_logprob='opt[real]')
    states(w)
    combine_single(w)
    w.heap_class('RecurrentState', R, sizes='htup[int]', num_sequences='int', _state_variables='list[ten3[real]]')
    w.specfns['SOME'] = some_of
    u = parse_type(W)
    w.specfns['ISINT'] = lambda vc, a, k: T(BOOL, u.is_alt(vc.pack(a[0], u), u.alts.index(INT)))
    w.specfns['INTOF'] = lambda vc, a, k: T(INT, u.val(vc.pack(a[0], u), u.alts.index(INT)))
    w.specfns['ISCOL'] = lambda vc, a, k: T(BOOL, ISCOL(vc.pack(a[0], TEN), vc.pack(a[1], TEN), vc.pack(a[2], INT)))
    w.record('Network', recurrent_state_size='htup[int]')
    w.record('LatticeDecoder', F + 'LatticeDecoder', _network=w.records['Network'], _vocabulary=w.records['Vocabulary'], _nnlm_weight='real',
             _lm_scale='opt[real]', _wi_penalty='opt[real]', _unk_penalty='opt[real]', _unk_from_lattice='bool', _linear_interpolation='bool',
             _recombination_order='opt[int]', _oos_logprobs='opt[vec[real]]', _sos_id='int', _eos_id='int', _unk_id='int')


VOC = 'self._vocabulary'
SHORT = 'len(%s.word_id_to_class_id)' % VOC
VMEMBER = MEMBER.replace('self.', VOC + '.')
IN = '{0} < %s' % SHORT


def shortlisted(w):
    """the ID fed to the network for a word"""
    return '(ASINT({0}) if ISINT({0}) and ASINT({0}) < %s else self._unk_id)' % SHORT


def handle(kind, oos, word, lp):
    """the log probability after <unk> processing"""
    if oos:
        if kind == 'int': return '({1} + SOME(self._oos_logprobs)[{0}])'.format(word, lp)
        return '({0} if oov_logprob is None else SOME(oov_logprob))'.format(lp)
    if kind == 'int': return '(SOME(oov_logprob) if not {0} < {2} and oov_logprob is not None else {1})'.format(word, lp, SHORT)
    return '({0} if oov_logprob is None else SOME(oov_logprob))'.format(lp)


def fix_oos(oos):
    def f(vc, v):
        vc.st.objs[v['self'].oid]['_oos_logprobs'] = vc.fresh_value(parse_type('vec[real]'), 'oos') if oos else None
    return f


LAST = 'tokens[{i}].history[len(tokens[{i}].history) - 1]'
FED = '(INTOF({0}) if ISINT({0}) and INTOF({0}) < %s else self._unk_id)' % SHORT


def step_function(vc, v):
    """The Theano function of the network: checks its arguments, returns arbitrary outputs."""
    def call(vc, a, k):
        if len(a) != 4 or not isinstance(a[3], tuple) or a[3][0] != '*': raise Unsupported('arguments of the step function')
        X = {'A0': a[0], 'A1': a[1], 'A2': a[2], 'ST': a[3][1]}
        for nm, q in (('one input word per token', 'A0.shape[0] == 1 and A0.shape[1] == len(tokens) and A1.shape == A0.shape and A2.shape == A0.shape'),
                      ('the last words are fed to the network', 'forall(tokens, lambda i: A0[0, i] == %s)' % FED.format(LAST.format(i='i'))),
                      ('with their classes', 'forall(tokens, lambda i: A1[0, i] == self._vocabulary.word_id_to_class_id[A0[0, i]])'),
                      ('the class of the target word is predicted', 'forall(tokens, lambda i: A2[0, i] == self._vocabulary.word_id_to_class_id[%s])' % vc.target),
                      ('from the states of the tokens', 'len(ST) == len(self._network.recurrent_state_size) and forall(len(ST), lambda v: forall(tokens, lambda i: '
                       'forall(self._network.recurrent_state_size[v], lambda b: ST[v][0, i, b] == tokens[i].state._state_variables[v][0, 0, b])))')):
            vc.oblige('arguments of the step function: ' + nm, vc.spec(q, X))
        lp, st = vc.fresh_value(parse_type('mat[real]'), 'logprobs'), vc.fresh_value(parse_type('list[ten3[real]]'), 'states')
        g = vc.st.objs[v['self'].oid]
        g['_lp'], g['_out'] = vc.freeze(lp), vc.freeze(st)
        Y = {'LPM': vc.freeze(lp), 'OUT': vc.freeze(st)}
        vc.assume(vc.spec('LPM.shape[0] == 1 and LPM.shape[1] == len(tokens) and len(OUT) == len(self._network.recurrent_state_size) and '
                          'forall(len(OUT), lambda v: OUT[v].shape[0] == 1 and OUT[v].shape[1] == len(tokens) and OUT[v].shape[2] == self._network.recurrent_state_size[v])', Y))
        r = vc.new_record(RecT('StepResult'), 'step')

        def item(vc, b, k):
            if b[0] == 0: return lp
            if isinstance(b[0], SliceV) and b[0].lo == 1 and b[0].hi is None and b[0].step is None: return st
            raise Unsupported('item of the step result')
        vc.st.objs[r.oid]['__getitem__'] = BuiltinV('item', item)
        return r
    vc.st.objs[v['self'].oid]['_step_function'] = BuiltinV('step', call)
    is_column(vc, v)


def is_column(vc, v):
    """ISCOL(L, O, i): every array of L is column i of the corresponding array of O (a definition, of which only one direction is needed)."""
    ty = parse_type('list[ten3[real]]')
    L, O, i = z3.Const('col!L', ty.sort), z3.Const('col!O', ty.sort), z3.Int('col!i')
    body = vc.spec('len(L) == len(O) and forall(len(O), lambda v: L[v].shape[0] == 1 and L[v].shape[1] == 1 and L[v].shape[2] == O[v].shape[2] and '
                   'forall(O[v].shape[2], lambda b: L[v][0, 0, b] == O[v][0, i, b]))', {'L': vc.unpack(ty, L), 'O': vc.unpack(ty, O), 'i': T(INT, i)})
    vc.assume(z3.ForAll([L, O, i], z3.Implies(body, ISCOL(L, O, i)), patterns=[ISCOL(L, O, i)]))


def append_word(w):
    for kind in ('int', 'str'):
        for oos in (False, True):
            target = '(target_word if target_word < %s else self._unk_id)' % SHORT if kind == 'int' else 'self._unk_id'

            def setup(vc, v, oos=oos, target=target):
                fix_oos(oos)(vc, v)
                vc.target = target
                step_function(vc, v)
            LP = 'self._lp[0, {i}] + LOG(%s._word_classes[%s.word_id_to_class_id[%s]]._probs[%s])' % (VOC, VOC, target, target)
            done = ['len(tokens[i].history) == old(len(tokens[i].history)) + 1', 'INTOF(%s) == target_word' % LAST.format(i='i') if kind == 'int' else LAST.format(i='i') + ' == target_word',
                    'forall(old(len(tokens[i].history)), lambda j: tokens[i].history[j] == old(tokens[i].history[j]))',
                    'tokens[i].nn_lm_logprob == old(tokens[i].nn_lm_logprob) + ' + handle(kind, oos, 'target_word', '(%s)' % LP.format(i='i')),
                    'tokens[i].state.num_sequences == 1', SHAPED.format(s='tokens[i].state'), 'eqt(tokens[i].state.sizes, self._network.recurrent_state_size)',
                    'ident(tokens[i].state) < alloc()', 'ISCOL(tokens[i].state._state_variables, self._out, i)']
            same = ['tokens[i].ac_logprob == old(tokens[i].ac_logprob)', 'tokens[i].lat_lm_logprob == old(tokens[i].lat_lm_logprob)']
            todo = ['tokens[i].history == old(tokens[i].history)', 'tokens[i].nn_lm_logprob == old(tokens[i].nn_lm_logprob)']
            w.contract(D + '_append_word', variant='%s%s' % (kind, ', oos' if oos else ''), setup=setup,
                       params={'tokens': 'list[ref[Token]]', 'target_word': kind, 'oov_logprob': 'opt[real]'},
                       requires=['len(tokens) > 0', 'forall(tokens, lambda i: forall(i, lambda j: not same(tokens[i], tokens[j])))',
                                 'forall(tokens, lambda i: len(tokens[i].history) > 0 and tokens[i].state.num_sequences == 1 and ' + SHAPED.format(s='tokens[i].state') +
                                 ' and eqt(tokens[i].state.sizes, self._network.recurrent_state_size))',
                                 'forall(tokens, lambda i: implies(ISINT({0}), INTOF({0}) >= 0))'.format(LAST.format(i='i')),
                                 'forall(self._network.recurrent_state_size, lambda v: self._network.recurrent_state_size[v] >= 0)',
                                 '"<unk>" in self._vocabulary.word_to_id', '0 <= self._unk_id < ' + SHORT, 'self._vocabulary.word_to_id["<unk>"] == self._unk_id',
                                 VMEMBER] + (['target_word >= 0'] if kind == 'int' else []) +
                       (['len(self._oos_logprobs) > target_word'] if oos and kind == 'int' else []),
                       modifies=['Token.history', 'Token.state', 'Token.nn_lm_logprob'], opts={'budget': 300, 'cost': 5},
                       ensures=['forall(tokens, lambda i: %s)' % x for x in done + same] + ['eqt(tokens, old(tokens))'],
                       loops=[Loop(types={'token': 'ref[Token]', 'index': 'int'},
                                   inv=['forall(_k, lambda i: %s)' % x for x in done] + ['forall(tokens, lambda i: %s)' % x for x in same] +
                                   ['forall(_k, len(tokens), lambda i: %s)' % x for x in todo])])


def world():
    w = World()
    decimals(w)
    decoder(w)
    w.externals['numpy.log'] = lambda vc, a, k: T(REAL, LOG(vc.real(a[0])))
    w.contract(V + '.get_class_memberships', assume_only=True, params={'word_ids': 'mat[int]'}, returns='tup[mat[int],mat[real]]', note='P02',
               requires=['"<unk>" in self.word_to_id', '0 <= self.word_to_id["<unk>"] < len(self.word_id_to_class_id)', MEMBER,
                         'forall(word_ids.shape[0], lambda i: forall(word_ids.shape[1], lambda j: 0 <= word_ids[i, j] < len(self.word_id_to_class_id)))'],
               ensures=['result[0].shape == word_ids.shape', 'result[1].shape == word_ids.shape',
                        'forall(word_ids.shape[0], lambda i: forall(word_ids.shape[1], lambda j: result[0][i, j] == self.word_id_to_class_id[word_ids[i, j]]))'])
    w.contract(V + '.get_word_prob', assume_only=True, params={'word_id': 'int'}, requires=[MEMBER, '0 <= word_id < len(self.word_id_to_class_id)'], note='P02',
               returns='real', ensures=['result == self._word_classes[self.word_id_to_class_id[word_id]]._probs[word_id]'])
    w.contract(V + '.in_shortlist', params={'word_id': 'int'}, returns='bool', ensures=['iff(result, word_id < len(self.word_id_to_class_id))'])
    for kind in ('int', 'str'):
        for oos in (False, True):
            w.contract(D + '_handle_unk_logprob', variant='%s%s' % (kind, ', oos' if oos else ''), setup=fix_oos(oos),
                       params={'word': kind, 'network_logprob': 'real', 'oov_logprob': 'opt[real]'}, returns='real',
                       requires=(['0 <= word < len(self._oos_logprobs)'] if oos and kind == 'int' else []) + (['word >= 0'] if kind == 'int' else []),
                       ensures=['result == ' + handle(kind, oos, 'word', 'network_logprob')])
    append_word(w)
    return w
