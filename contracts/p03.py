"""P03: the vocabulary in a model file."""
import z3
from pyvc.types import *
from pyvc.vc import World, Loop, BuiltinV
from contracts.vocab import *
from contracts import p01, h5

ASSUMPTIONS = h5.ASSUMPTIONS + ['strings are stored and read back unchanged']
TYPES = {'words': 'vec[str]', 'classes': 'vec[int]', 'probs': 'vec[real]', 'unigram_probs': 'vec[real]'}


def state(vc, types=None):
    g = h5.group(vc, 'vocabulary', types or TYPES)
    vc.st.objs[g.oid]['_is'] = True
    return h5.group(vc, 'state', {}, ('vocabulary', g))


def some_of(vc, a, k):
    u = a[0].ty if isinstance(a[0], T) else None
    if not isinstance(u, UnionT): return a[0]
    i = next(i for i, t in enumerate(u.alts) if t != NONE)
    return vc.unpack(u.alts[i], u.val(a[0].t, i))


def world():
    w = World()
    vocabulary(w)
    lookup_contracts(w)
    w.externals['h5py.special_dtype'] = lambda vc, a, k: T(OPAQUE, vc.fresh('dtype', z3.IntSort()))
    g = 'state["vocabulary"]'
    w.specfns['DS'] = lambda vc, a, k: vc.st.objs[next(o for o, d in vc.st.objs.items() if '_is' in d)][a[0]]
    size = [('DS("%s") is None or len(DS("%s")) == len(%s)' % (d, d, x)) for d, x in (
        ('words', 'self.id_to_word'), ('classes', 'self.word_id_to_class_id'), ('probs', 'self.word_id_to_class_id'), ('unigram_probs', 'self.id_to_word'))]
    w.contract(F + '.get_state', params={'state': state}, requires=[MEMBER, 'self._unigram_probs is None or len(self._unigram_probs) == len(self.id_to_word)'] + size,
               ensures=['eqt(DS("words"), self.id_to_word)', 'eqt(DS("classes"), self.word_id_to_class_id)',
                        'len(DS("probs")) == len(self.word_id_to_class_id)',
                        'forall(len(self.word_id_to_class_id), lambda i: DS("probs")[i] == self._word_classes[self.word_id_to_class_id[i]]._probs[i])',
                        'iff(DS("unigram_probs") is None, self._unigram_probs is None)',
                        'implies(self._unigram_probs is not None, eqt(DS("unigram_probs"), self._unigram_probs))'])
    # the constructor and the class functions are proved in P01
    pw = p01.world()
    for k in (F + '.__init__', C + '.__init__', C + '.add', C + '.normalize_probs', F + '.num_words', F + '.num_shortlist_words'):
        if k in pw.contracts:
            c = pw.contracts[k]
            c.assume_only, c.note = True, 'proved in the check of P01'
            w.contracts[k] = c
    W = 'DS("words")'
    K = 'DS("classes")'
    P = 'DS("probs")'
    some = 'forall(len(%s), lambda q: word_classes[q] is not None)' % 'word_classes'
    full = {d: t + ('!' if d != 'unigram_probs' else '') for d, t in TYPES.items()}
    w.specfns['SOME'] = some_of
    w.contract(F + '.from_state', params={'state': lambda vc: state(vc, full)}, may_raise=['IncompatibleStateError', 'ZeroDivisionError'],
               requires=['len({1}) > 0 and len({1}) <= len({0}) and len({2}) == len({1})'.format(W, K, P),
                         'forall(len({0}), lambda i: forall(len({0}), lambda j: implies({0}[i] == {0}[j], i == j)))'.format(W),
                         'exists(len({0}), lambda i: {0}[i] == "<s>") and exists(len({0}), lambda i: {0}[i] == "</s>") and exists(len({0}), lambda i: {0}[i] == "<unk>")'.format(W),
                         'forall(len({0}), lambda i: {0}[i] >= 0)'.format(K),
                         # every class has a word
                         'forall(len({0}), lambda i: forall({0}[i], lambda q: exists(len({0}), lambda j: {0}[j] == q)))'.format(K)],
               modifies=['WordClass._probs', 'WordClass.id'],
               ensures=['len(result.id_to_word) == len({0}) and forall(len({0}), lambda i: result.id_to_word[i] == {0}[i])'.format(W),
                        'len(result.word_id_to_class_id) == len({0}) and forall(len({0}), lambda i: result.word_id_to_class_id[i] == {0}[i])'.format(K),
                        'iff(DS("unigram_probs") is None, result._unigram_probs is None)',
                        'DS("unigram_probs") is None or (eqt(DS("unigram_probs"), result._unigram_probs) and len(result._unigram_probs) == len(result.id_to_word))'],
               locals={'word_classes': 'list[opt[ref[WordClass]]]'},
               loops=[Loop(inv=['len(word_classes) == num_classes',
                                'forall(num_classes, lambda q: iff(word_classes[q] is None, not exists(_k, lambda j: %s[j] == q)))' % K,
                                "forall(num_classes, lambda q: implies(word_classes[q] is not None, SOME(word_classes[q]).id == q and len(SOME(word_classes[q])._probs) >= 1))",
                                "forall(num_classes, lambda q: implies(word_classes[q] is not None, forall('int', lambda x: iff(x in SOME(word_classes[q])._probs, 0 <= x < _k and %s[x] == q))))" % K],
                           types={'word_classes': 'list[opt[ref[WordClass]]]'})])
    for miss in ('words', 'classes', 'probs'):
        w.contract(F + '.from_state', variant='without ' + miss, params={'state': lambda vc, m=miss: state(vc, dict(full, **{m: None}))},
                   raises={'IncompatibleStateError': 'True'}, opts={'never_returns': True}, loops=[None])
    return w
