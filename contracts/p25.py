"""P25: the training cost and gradient normalisation."""
import z3
from pyvc.types import *
from pyvc.vc import World, Loop, BuiltinV
from pyvc.evalmixin import PyDict
from contracts.vocab import *
from contracts import tm

Q = 'theanolm/training/cost.py::'
O = 'theanolm/training/basicoptimizer.py::BasicOptimizer'
OPS = 'theanolm/backend/operations.py::'
ASSUMPTIONS = tm.ASSUMPTIONS + ['tensor.grad is the gradient; log probabilities are finite (a zero probability at a masked position is outside the proved contract)',
                                'l1_norm and sum_of_squares are functions of the parameters; sum_of_squares is not negative']


def world():
    w = World()
    tm.theano(w)
    vocabulary(w)
    w.record('Net')
    l1, sq = z3.Real('L1NORM'), z3.Real('SUMSQ')
    w.axioms += [l1 >= 0, sq >= 0]
    w.specfns['L1NORM'] = lambda vc, a, k: T(REAL, l1)
    w.specfns['SUMSQ'] = lambda vc, a, k: T(REAL, sq)
    w.contract(OPS + 'l1_norm', assume_only=True, params={'tensors': 'opaque'}, returns='real', ensures=['result == L1NORM()'])
    w.contract(OPS + 'sum_of_squares', assume_only=True, params={'tensors': 'opaque'}, returns='real', ensures=['result == SUMSQ()'])

    def network(vc):
        r = vc.new_record(RecT('Net', {}), 'network')
        a = vc.st.objs[r.oid]
        a['vocabulary'] = vc.fresh_value(vc.world.records['Vocabulary'], 'vocabulary')
        for n in ('input_word_ids', 'input_class_ids', 'target_word_ids', 'target_class_ids', 'mask'): a[n] = tm.fresh_nd(vc, 2, INT, n)
        for n in ('is_training', 'num_noise_samples'): a[n] = T(INT, vc.fresh(n, z3.IntSort()))
        a['TP'] = tm.fresh_nd(vc, 2, REAL, 'target_probs')
        a['target_probs'] = BuiltinV('target_probs', lambda vc, b, k: vc.st.objs[r.oid]['TP'])
        vals = vc.fresh_value(parse_type('dict[str,mat[real]]'), 'variables')
        a['get_variables'] = BuiltinV('get_variables', lambda vc, b, k: vals)
        return r
    w.record('Cost', Q + 'CrossEntropyCost')
    for ex in (False, True):
        for a in (False, True):
            for b in (False, True):
                def setup(vc, vars, ex=ex, a=a, b=b):
                    o = vc.st.objs[vars['self'].oid]
                    o['_network'] = network(vc)
                    o['_exclude_id'] = T(INT, vc.fresh('exclude_id', z3.IntSort())) if ex else None
                    o['_l1_regularization'] = T(REAL, vc.fresh('l1', z3.RealSort())) if a else None
                    o['_l2_regularization'] = T(REAL, vc.fresh('l2', z3.RealSort())) if b else None
                    o['_epsilon'] = T(REAL, vc.fresh('epsilon', z3.RealSort()))
                N = 'self._network.'
                on = '(%smask[t, s]%s)' % (N, ' * (1 if %starget_word_ids[t, s] != self._exclude_id else 0)' % N if ex else '')
                num = 'SUM({0}mask.shape[0], lambda t: SUM({0}mask.shape[1], lambda s: {1}))'.format(N, on)
                lp = 'SUM({0}mask.shape[0], lambda t: SUM({0}mask.shape[1], lambda s: LOG({0}TP[t, s]) * {1}))'.format(N, on)
                reg = (' + self._l1_regularization * L1NORM()' if a else '') + (' + self._l2_regularization * SUMSQ()' if b else '')
                w.contract(Q + 'Cost.get_tensor', variant='%s%s%s' % ('exclude ' if ex else '', 'l1 ' if a else '', 'l2' if b else ''), setup=setup,
                           opts={'tensor': True, 'self_rec': 'Cost', 'cost': 3},
                           requires=['{0}TP.shape == {0}mask.shape and {0}target_word_ids.shape == {0}mask.shape'.format(N), '%s != 0' % num],
                           ensures=['result[1] == ' + num, 'result[0] == -(%s) / (%s)%s' % (lp, num, reg)])
    def xsetup(vc, vars):
        o = vc.st.objs[vars['self'].oid]
        o['_network'] = network(vc)
        for n in ('_exclude_id', '_l1_regularization', '_l2_regularization'): o[n] = None
        o['_epsilon'] = T(REAL, vc.fresh('epsilon', z3.RealSort()))
    w.contract(Q + 'CrossEntropyCost._get_logprobs', variant='exact', setup=xsetup, opts={'tensor': True, 'self_rec': 'Cost'},
               ensures=['result.shape == self._network.TP.shape', 'forall(self._network.TP.shape[0], lambda t: forall(self._network.TP.shape[1], lambda s: result[t, s] == LOG(self._network.TP[t, s])))'])
    # normalisation: every tensor is multiplied by the same factor
    w.record('Optimizer', O, _max_gradient_norm='real', _epsilon='real', learning_rate='real', _weights='vec[real]')
    fac = '((0 if NRM < 0 else self._max_gradient_norm if NRM > self._max_gradient_norm else NRM) / (self._epsilon + NRM))'
    sqf = z3.Function('SQRT', z3.RealSort(), z3.RealSort())
    w.specfns['NORM'] = lambda vc, a, k: T(REAL, sqf(sq))
    fac = fac.replace('NRM', 'NORM()')
    D = lambda d, p: 'forall("str", lambda x: x not in {d} or {p})'.format(d=d, p=p)
    el = 'forall(old(deltas)[x].shape[0], lambda i: forall(old(deltas)[x].shape[1], lambda j: deltas[x][i, j] == old(deltas)[x][i, j] * %s))' % fac
    w.contract(O + '._normalize', params={'deltas': 'dict[str,mat[real]]'}, requires=['self._max_gradient_norm > 0', 'self._epsilon > 0'],
               modifies=['deltas'], opts={'tensor': True, 'cost': 5, 'self_rec': 'Optimizer'},
               ensures=['result is deltas', 'len(deltas) == len(old(deltas))', D('old(deltas)', 'x in deltas'), D('old(deltas)', 'deltas[x].shape == old(deltas)[x].shape'), D('old(deltas)', el)],
               loops=[Loop(inv=['len(deltas) == len(old(deltas))', 'forall("str", lambda x: iff(x in deltas, x in old(deltas)))', D('old(deltas)', 'deltas[x].shape == old(deltas)[x].shape'),
                                'forall(_k, len(old(deltas)), lambda i: eqt(deltas[keyat(old(deltas), i)], old(deltas)[keyat(old(deltas), i)]))',
                                'forall("str", lambda x: x not in old(deltas) or keypos(old(deltas), x) >= _k or (%s))' % el])])
    n, f, mx, e = z3.Reals('norm factor limit eps')
    pre = [n >= 0, mx > 0, e > 0, f * (e + n) == z3.If(n > mx, mx, n)]
    w.lemma('the factor is not negative and at most one', z3.And(f >= 0, f <= 1), pre)
    w.lemma('the norm after scaling does not exceed the limit', f * n <= mx, pre)
    w.lemma('below the limit only the stability term changes the norm', z3.Implies(n <= mx, n - f * n <= e), pre)
    # the arguments of the update function
    def upd(vc, a, k):
        X = {'A%d' % i: x for i, x in enumerate(a)}
        for q in ('eqt(A0, word_ids)', 'eqt(A1, class_ids)', 'A2.shape[0] == self.mask0.shape[0] - 1 and A2.shape[1] == self.mask0.shape[1] and A3.shape == A2.shape',
                  'forall(A2.shape[0], lambda t: forall(A2.shape[1], lambda s: A2[t, s] == self.mask0[t + 1, s] and A3[t, s] == self._weights[self.files0[t + 1, s]]))', 'A4 == self.learning_rate'):
            vc.oblige('arguments of the update function: ' + q, vc.spec(q, X))
        o = vc.st.objs[vc.frame.vars['self'].oid]
        o['ncalls'] = T(INT, z3.simplify(vc.intt(o['ncalls']) + 1))
        return None
    w.records['Optimizer'].attrs['update_function'] = FnT(upd)
    w.records['Optimizer'].attrs['ncalls'] = INT
    M = {'word_ids': 'mat[int]', 'class_ids': 'mat[int]', 'file_ids': 'mat[int]', 'mask': 'mat[int]'}
    def keep(vc, vars):
        vc.st.objs[vars['self'].oid].update(mask0=vars['mask'], files0=vars['file_ids'])
    w.contract(O + '.update_minibatch', params=M, opts={'self_rec': 'Optimizer'}, setup=keep, modifies=['self.ncalls'],
               requires=['self.ncalls == 0', 'mask.shape[0] >= 1', 'file_ids.shape == mask.shape', 'forall(file_ids.shape[0], lambda t: forall(file_ids.shape[1], lambda s: 0 <= file_ids[t, s] < len(self._weights)))'],
               ensures=['self.ncalls == 1'])
    # the update function: inputs are the words but the last, targets the words but the first
    def options(vc):
        d = {k: T(REAL, vc.fresh(k, z3.RealSort())) for k in ('epsilon', 'learning_rate', 'max_gradient_norm')}
        d['weights'] = vc.fresh_value(parse_type('vec[real]'), 'weights')
        d.update(num_noise_samples=T(INT, vc.fresh('nns', z3.IntSort())), noise_sharing=None)
        return vc.new_cell(PyDict(d))

    def cost_fn(vc):
        r = vc.new_record(RecT('CostFn', {}), 'cost_function')
        a = vc.st.objs[r.oid]
        a['C'], a['N'] = T(REAL, vc.fresh('cost', z3.RealSort())), T(INT, vc.fresh('num_words', z3.IntSort()))
        a['get_tensor'] = BuiltinV('get_tensor', lambda vc, b, k: (vc.st.objs[r.oid]['C'], vc.st.objs[r.oid]['N']))
        return r
    w.record('CostFn')
    w.record('DType')

    def dtype(vc, a, k):
        r = vc.new_record(RecT('DType', {}), 'dtype')
        vc.st.objs[r.oid]['type'] = BuiltinV('float type', lambda vc, b, k: b[0])
        return r
    w.externals['numpy.dtype'] = dtype
    w.record('NewOptimizer', O)
    w.externals['theano.tensor.grad'] = lambda vc, a, k: vc.fresh_value(OPAQUE, 'grad')
    w.contract(O + '._get_param_updates', assume_only=True, params={'alpha': 'real'}, returns='opaque')
    f = 'self.update_function'
    sl = lambda var, i, lo: ['GIVEN({f}, network.{v}).shape[0] == (FIN({f}, {i}).shape[0] - 1 if FIN({f}, {i}).shape[0] > 0 else 0) and GIVEN({f}, network.{v}).shape[1] == FIN({f}, {i}).shape[1]'.format(f=f, v=var, i=i),
                             'forall(FIN({f}, {i}).shape[0] - 1, lambda t: forall(FIN({f}, {i}).shape[1], lambda s: GIVEN({f}, network.{v})[t, s] == FIN({f}, {i})[t{lo}, s]))'.format(f=f, v=var, i=i, lo=lo)]
    w.contract(O + '.__init__', variant='update function', params={'optimization_options': options, 'network': network, 'cost_function': cost_fn, 'profile': 'bool'},
               requires=['"<unk>" in network.vocabulary.word_to_id', 'cost_function.N > 0'], opts={'tensor': True, 'init': True, 'self_rec': 'NewOptimizer'},
               ensures=sl('input_word_ids', 0, '') + sl('input_class_ids', 1, '') + sl('target_word_ids', 0, ' + 1') + sl('target_class_ids', 1, ' + 1') +
               ['ISVAR(FIN(%s, 2), network.mask)' % f, 'GIVEN(%s, network.is_training) == 1' % f, 'GIVEN(%s, network.num_noise_samples) == optimization_options["num_noise_samples"]' % f,
                'FOUT(%s, 0) == cost_function.C and FOUT(%s, 1) == cost_function.N' % (f, f),
                'self._epsilon == optimization_options["epsilon"] and self.learning_rate == optimization_options["learning_rate"] and self._max_gradient_norm == optimization_options["max_gradient_norm"]'])
    return w
