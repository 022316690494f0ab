"""P10: token score algebra."""
import z3
from pyvc.types import *
from pyvc.vc import World, BuiltinV
from pyvc.builtinsmixin import EXP, LOG

F = 'theanolm/scoring/latticedecoder.py::'
G = 'theanolm/backend/probfunctions.py::'
ASSUMPTIONS = ['numpy.exp on 64-bit floats returns the exponential when it is a normal number and otherwise an arbitrary value from zero to the smallest normal number',
               'decimal arithmetic is exact; log probabilities in the proved contracts are finite, minus infinity is covered by the bounded part']


def decimals(w):
    """numpy.exp may underflow to zero; Decimal computes exactly."""
    sub = z3.Function('subnormal_exp', z3.RealSort(), z3.RealSort())
    tiny = z3.Real('tiny')
    w.axioms.append(tiny > 0)

    def npexp(vc, a, k):
        x = vc.real(vc.split(a[0]))
        vc.assume(z3.And(EXP(x) > 0, LOG(EXP(x)) == x))
        vc.assume(z3.And(sub(x) >= 0, sub(x) < tiny))
        return T(REAL, z3.If(EXP(x) >= tiny, EXP(x), sub(x)))
    w.externals['numpy.exp'] = npexp
    w.record('finfo', tiny='real', smallest_normal='real')
    w.records['finfo'].attrs['tiny'] = w.records['finfo'].attrs['smallest_normal'] = lambda vc: T(REAL, tiny)
    w.externals['numpy.finfo'] = lambda vc, a, k: vc.new_record(vc.world.records['finfo'], 'finfo')
    w.externals['numpy.float64'] = lambda vc, a, k: a[0]
    w.externals['numpy.float32'] = lambda vc, a, k: a[0]
    w.externals['decimal.Decimal'] = lambda vc, a, k: a[0] if not isinstance(vc.split(a[0]), (int, float)) else T(REAL, vc.real(a[0]))
    w.externals['decimal.getcontext'] = lambda vc, a, k: vc.new_record(RecT('Context'), 'ctx')
    w.record('Context', prec='int')
    x = z3.Real('x!nan')
    isnan = z3.Function('isnan', z3.RealSort(), z3.BoolSort())
    w.axioms.append(z3.ForAll([x], z3.Not(isnan(x)), patterns=[isnan(x)]))


def tokens(w):
    w.heap_class('Token', F + 'LatticeDecoder.Token', history='htup[union[int,str]]', state='opaque', ac_logprob='real',
                 lat_lm_logprob='real', nn_lm_logprob='real', recombination_hash='opt[int]', graph_logprob='opt[real]',
                 total_logprob='opt[real]')


LINEAR = 'LOG({w} * EXP({a}) + (1 - {w}) * EXP({b}))'
LOGLIN = '{w} * {a} + (1 - {w}) * {b}'


def world():
    w = World()
    decimals(w)
    tokens(w)
    w.contract(G + 'interpolate_linear', params={'logprob1': 'real', 'logprob2': 'real', 'weight1': 'real'},
               requires=['0 <= weight1 <= 1'],
               ensures=['result == ' + LINEAR.format(w='weight1', a='logprob1', b='logprob2')], returns='real')
    w.contract(G + 'interpolate_loglinear',
               params={'logprob1': 'real', 'logprob2': 'real', 'prior1': 'real', 'prior2': 'real'},
               ensures=['result == prior1 * logprob1 + prior2 * logprob2'], returns='real')
    T_ = F + 'LatticeDecoder.Token.'
    frame = ['self.history == old(self.history)', 'self.ac_logprob == old(self.ac_logprob)',
             'self.lat_lm_logprob == old(self.lat_lm_logprob)', 'self.nn_lm_logprob == old(self.nn_lm_logprob)',
             'self.recombination_hash == old(self.recombination_hash)', 'self.state == old(self.state)']
    for lin in (False, True):
        lm = (LINEAR if lin else LOGLIN).format(w='nn_lm_weight', a='self.nn_lm_logprob', b='self.lat_lm_logprob')
        w.contract(T_ + 'recompute_total', variant='linear' if lin else 'loglinear',
                   params={'nn_lm_weight': 'real', 'lm_scale': 'real', 'wi_penalty': 'real', 'linear': lambda vc, lin=lin: lin},
                   requires=['0 <= nn_lm_weight <= 1'],
                   ensures=['self.graph_logprob == (%s) * lm_scale + wi_penalty * (len(self.history) - 1)' % lm,
                            'self.total_logprob == self.ac_logprob + (%s) * lm_scale + wi_penalty * (len(self.history) - 1)' % lm] + frame)
    w.contract(T_ + 'copy', params={'token': 'ref[Token]'}, returns='ref[Token]',
               ensures=['result.history == token.history', 'result.state == token.state', 'result.ac_logprob == token.ac_logprob',
                        'result.lat_lm_logprob == token.lat_lm_logprob', 'result.nn_lm_logprob == token.nn_lm_logprob',
                        'not same(result, token)', 'result.total_logprob is None', 'result.recombination_hash is None',
                        'token.history == old(token.history)', 'token.ac_logprob == old(token.ac_logprob)',
                        'token.lat_lm_logprob == old(token.lat_lm_logprob)', 'token.nn_lm_logprob == old(token.nn_lm_logprob)',
                        'token.total_logprob == old(token.total_logprob)', 'token.state == old(token.state)'])
    return w
