"""P15: subword merging."""
import z3
from pyvc.types import *
from pyvc.vc import World, Loop
from pyvc.builtinsmixin import _sf
from contracts.p03 import some_of
from contracts.rec import prefix_fn

M = 'theanolm/commands/score.py::_merge_subwords'
ASSUMPTIONS = ['str.startswith and str.endswith are uninterpreted deterministic predicates',
               'log probabilities are mathematical reals or missing; minus infinity and rounding are covered by the bounded stand-in']


def world():
    w = World()
    w.specfns['SOME'] = some_of
    I, B = z3.IntSort(), z3.BoolSort()
    LP = ListT(OptT(REAL))
    ou = LP.e
    none_i = next(i for i, t in enumerate(ou.alts) if t == NONE)
    isnone = lambda t: ou.is_alt(t, none_i)
    val = lambda t: ou.val(t, 1 - none_i)
    st, en = _sf('startswith', I, I, B), _sf('endswith', I, I, B)
    plus, bnd, unk = strcode('+'), strcode('<w>'), strcode('<unk>')
    el = lambda A, k: z3.Select(A[0], k + 1)          # k-th subword after the first
    lp = lambda A, k: z3.Select(A[1], k)
    TS = ['list[str]', 'list[opt[real]]']
    # prefix/affix: is the k-th joined to the one before; number of words begun by the first k; place in the word; its log probability
    joined = lambda A, k: z3.And(k > 0, en(el(A, k - 1), plus), st(el(A, k), plus))
    nw = prefix_fn(w, 'PA_N', TS, 'int', 0, lambda A, k, g: g(nw, k) + z3.If(joined(A, k), 0, 1), nonneg=True)
    loc = prefix_fn(w, 'PA_AT', TS, 'int', 0, lambda A, k, g: z3.If(joined(A, k), g(loc, k) + 1, 0), nonneg=True)
    cn = prefix_fn(w, 'PA_NONE', TS, 'bool', False, lambda A, k, g: z3.If(joined(A, k), z3.Or(g(cn, k), isnone(lp(A, k))), isnone(lp(A, k))))
    cv = prefix_fn(w, 'PA_LP', TS, 'real', 0, lambda A, k, g: z3.If(joined(A, k), g(cv, k) + val(lp(A, k)), val(lp(A, k))))
    w.specfns['JOINED'] = lambda vc, a, k: T(BOOL, joined([ListT(STR).arr(vc.pack(a[0], ListT(STR)))], vc.intt(a[1])))
    # word boundary: number of words ended by the first k; subwords of the current word; does it contain <unk>; its log probability
    isb = lambda A, k: el(A, k) == bnd
    bn = prefix_fn(w, 'WB_N', TS, 'int', 0, lambda A, k, g: g(bn, k) + z3.If(z3.And(isb(A, k), g(bc, k) > 0), 1, 0), nonneg=True)
    bc = prefix_fn(w, 'WB_LEN', TS, 'int', 0, lambda A, k, g: z3.If(isb(A, k), 0, g(bc, k) + 1), nonneg=True)
    bu = prefix_fn(w, 'WB_UNK', TS, 'bool', False, lambda A, k, g: z3.And(z3.Not(isb(A, k)), z3.Or(g(bu, k), el(A, k) == unk)))
    bx = prefix_fn(w, 'WB_NONE', TS, 'bool', False, lambda A, k, g: z3.And(z3.Not(isb(A, k)), z3.Or(g(bx, k), isnone(lp(A, k)))))
    bv = prefix_fn(w, 'WB_LP', TS, 'real', 0, lambda A, k, g: z3.If(isb(A, k), 0, g(bv, k) + val(lp(A, k))))
    P = {'subwords': 'list[str]', 'subword_logprobs': 'list[opt[real]]'}
    BAD = {'ValueError': 'len(subword_logprobs) != len(subwords) - 1'}
    w.contract(M, variant='words', params=dict(P, marking='none'), raises=BAD,
               ensures=['result[0] is subwords and result[1] is subword_logprobs'])
    f = lambda n, k: '%s(subwords, subword_logprobs, %s)' % (n, k)
    n = '(len(subwords) - 1)'
    LAST = '(k == %s - 1 or not JOINED(subwords, k + 1))' % n
    FIRST = ['len({0}) >= 1 and len({0}[0]) == 1 and {0}[0][0] == subwords[0]'.format(x) for x in ('words', 'result[0]')]
    T_ = {'words': 'list[list[str]]', 'logprobs': 'list[opt[real]]', 'current_word': 'list[str]', 'current_logprob': 'opt[real]'}
    LT = dict(T_)
    pa_inv = [FIRST[0], 'len(logprobs) == len(words) - 1', 'iff(_k == 0, len(current_word) == 0)',
              'len(words) == {0} + (1 if _k == 0 else 0)'.format(f('PA_N', '_k')),
              '_k == 0 or (len(current_word) == {0} + 1 and current_word[len(current_word) - 1] == subwords[_k])'.format(f('PA_AT', '_k')),
              '_k == 0 or iff(current_logprob is None, {0})'.format(f('PA_NONE', '_k')),
              '_k == 0 or implies(current_logprob is not None, SOME(current_logprob) == {0})'.format(f('PA_LP', '_k')),
              'forall(_k, lambda k: {0} >= 1 and {0} <= {1})'.format(f('PA_N', 'k + 1'), f('PA_N', '_k')),
              'forall(_k, lambda k: implies({0} == {1}, {2} < len(current_word) and current_word[{2}] == subwords[k + 1]))'.format(f('PA_N', 'k + 1'), f('PA_N', '_k'), f('PA_AT', 'k + 1')),
              'forall(_k, lambda k: implies({0} < {1}, {2} < len(words[{0}]) and words[{0}][{2}] == subwords[k + 1]))'.format(f('PA_N', 'k + 1'), f('PA_N', '_k'), f('PA_AT', 'k + 1')),
              'forall(_k - 1, lambda k: implies(not JOINED(subwords, k + 1), {0} < {1} and len(words[{0}]) == {2} + 1))'.format(f('PA_N', 'k + 1'), f('PA_N', '_k'), f('PA_AT', 'k + 1')),
              'forall(_k - 1, lambda k: implies(not JOINED(subwords, k + 1), iff(logprobs[{0} - 1] is None, {1}) and implies(logprobs[{0} - 1] is not None, SOME(logprobs[{0} - 1]) == {2})))'.format(
                  f('PA_N', 'k + 1'), f('PA_NONE', 'k + 1'), f('PA_LP', 'k + 1'))]
    w.contract(M, variant='prefix-affix', params=dict(P, marking=lambda vc: 'prefix-affix'), raises=BAD, locals=LT,
               ensures=[FIRST[1], 'len(result[1]) == len(result[0]) - 1', 'len(result[0]) == {0} + 1'.format(f('PA_N', n)),
                        'forall({3}, lambda k: 1 <= {0} and {0} < len(result[0]) and {1} < len(result[0][{0}]) and result[0][{0}][{1}] == subwords[k + 1])'.format(
                            f('PA_N', 'k + 1'), f('PA_AT', 'k + 1'), '', n),
                        'forall({2}, lambda k: implies({3}, len(result[0][{0}]) == {1} + 1))'.format(f('PA_N', 'k + 1'), f('PA_AT', 'k + 1'), n, LAST),
                        'forall({2}, lambda k: implies({3}, iff(result[1][{0} - 1] is None, {1}) and implies(result[1][{0} - 1] is not None, SOME(result[1][{0} - 1]) == {4})))'.format(
                            f('PA_N', 'k + 1'), f('PA_NONE', 'k + 1'), n, LAST, f('PA_LP', 'k + 1'))],
               loops=[None, Loop(inv=pa_inv, types=T_)])
    # the k-th subword is in word number WB_N(k) + 1 (counting the first token)
    IN = 'subwords[k + 1] != "<w>"'
    UNKW = lambda x: 'len({0}) == 1 and {0}[0] == "<unk>"'.format(x)
    END = '(k == {0} - 1 or subwords[k + 2] == "<w>")'.format(n)     # the k-th is the last of its run
    # log probability of the word that ends at k: with the boundary token after it, if there is one
    NONE_ = '({0} or (k < {1} - 1 and subword_logprobs[k + 1] is None))'.format(f('WB_NONE', 'k + 1'), n)
    VAL_ = '{0} + (SOME(subword_logprobs[k + 1]) if k < {1} - 1 else 0)'.format(f('WB_LP', 'k + 1'), n)
    wb_inv = [FIRST[0], 'len(logprobs) == len(words) - 1', 'len(words) == {0} + 1'.format(f('WB_N', '_k')),
              'len(current_word) == ((1 if {1} else {0}) if {0} > 0 else 0)'.format(f('WB_LEN', '_k'), f('WB_UNK', '_k')),
              'implies({0}, {1} > 0 and current_word[0] == "<unk>")'.format(f('WB_UNK', '_k'), f('WB_LEN', '_k')),
              'implies(not {0}, forall(len(current_word), lambda i: current_word[i] != "<unk>"))'.format(f('WB_UNK', '_k')),
              'iff(current_logprob is None, {0}) and implies(current_logprob is not None, SOME(current_logprob) == {1})'.format(f('WB_NONE', '_k'), f('WB_LP', '_k')),
              'forall(_k, lambda k: implies({2}, {0} <= {1} and {3} >= 1))'.format(f('WB_N', 'k'), f('WB_N', '_k'), IN, f('WB_LEN', 'k + 1')),
              'forall(_k, lambda k: implies({2} and {0} == {1}, {3} <= {4} and {4} > 0))'.format(f('WB_N', 'k'), f('WB_N', '_k'), IN, f('WB_LEN', 'k + 1'), f('WB_LEN', '_k')),
              'forall(_k, lambda k: implies({2} and {0} == {1} and not {4}, current_word[{3} - 1] == subwords[k + 1]))'.format(f('WB_N', 'k'), f('WB_N', '_k'), IN, f('WB_LEN', 'k + 1'), f('WB_UNK', '_k')),
              'forall(_k, lambda k: implies({2} and {0} < {1} and not ISUNK(words[{0} + 1]), {3} <= len(words[{0} + 1]) and words[{0} + 1][{3} - 1] == subwords[k + 1]))'.format(
                  f('WB_N', 'k'), f('WB_N', '_k'), IN, f('WB_LEN', 'k + 1')),
              'forall(_k - 1, lambda k: implies({2} and subwords[k + 2] == "<w>", {0} < {1} and len(words[{0} + 1]) == (1 if {4} else {3}) and iff({4}, ISUNK(words[{0} + 1]))))'.format(
                  f('WB_N', 'k'), f('WB_N', '_k'), IN, f('WB_LEN', 'k + 1'), f('WB_UNK', 'k + 1')),
              'forall(_k - 1, lambda k: implies({2} and subwords[k + 2] == "<w>", iff(logprobs[{0}] is None, {3} or subword_logprobs[k + 1] is None) and implies(logprobs[{0}] is not None, SOME(logprobs[{0}]) == {4} + SOME(subword_logprobs[k + 1]))))'.format(
                  f('WB_N', 'k'), f('WB_N', '_k'), IN, f('WB_NONE', 'k + 1'), f('WB_LP', 'k + 1')),
              ]

    w.specfns['ISUNK'] = lambda vc, a, k: _isunk(vc, a[0])
    w.contract(M, variant='word-boundary', params=dict(P, marking=lambda vc: 'word-boundary'), raises=BAD, locals=LT,
               ensures=[FIRST[1], 'len(result[1]) == len(result[0]) - 1',
                        'len(result[0]) == {0} + 1 + (1 if {1} > 0 else 0)'.format(f('WB_N', n), f('WB_LEN', n)),
                        'forall({0}, lambda k: implies({1}, {2} + 1 < len(result[0])))'.format(n, IN, f('WB_N', 'k')),
                        # words without the unknown-word token hold their subwords in order
                        'forall({0}, lambda k: implies({1} and not ISUNK(result[0][{2} + 1]), {3} - 1 < len(result[0][{2} + 1]) and result[0][{2} + 1][{3} - 1] == subwords[k + 1]))'.format(n, IN, f('WB_N', 'k'), f('WB_LEN', 'k + 1')),
                        'forall({0}, lambda k: implies({1} and {4}, len(result[0][{2} + 1]) == (1 if {5} else {3}) and iff({5}, ISUNK(result[0][{2} + 1]))))'.format(
                            n, IN, f('WB_N', 'k'), f('WB_LEN', 'k + 1'), END, f('WB_UNK', 'k + 1')),
                        'forall({0}, lambda k: implies({1} and {4}, iff(result[1][{2}] is None, {5}) and implies(result[1][{2}] is not None, SOME(result[1][{2}]) == {6})))'.format(
                            n, IN, f('WB_N', 'k'), '', END, NONE_, VAL_)],
               loops=[Loop(inv=wb_inv, types=T_), None])
    w.contract(M, variant='other', params=dict(P, marking='str'), requires=['marking != "word-boundary" and marking != "prefix-affix"'],
               raises={'ValueError': 'True'}, opts={'never_returns': True}, locals=LT, loops=[Loop(inv=[], types=T_), Loop(inv=[], types=T_)])
    return w


def _isunk(vc, x):
    ty = ListT(STR)
    t = vc.pack(x, ty)
    return T(BOOL, z3.And(ty.length(t) == 1, z3.Select(ty.arr(t), 0) == strcode('<unk>')))
