"""P04: unigram, out-of-shortlist and class probabilities."""
import z3
from pyvc.types import *
from pyvc.vc import World, Loop
from contracts.vocab import *
from pyvc.builtinsmixin import SUMR

ASSUMPTIONS = ['numpy.add.at(result, ids, values) adds to every element of result the sum of the values at its positions in ids']
UN = 'self._unigram_probs'
N = 'len(self.word_id_to_class_id)'


def add_at(vc, a, k):
    o, ids, vals = a
    c, i, v = vc.content(o), vc.as_nd(ids), vc.as_nd(vals)
    vc.require(z3.ForAll([z3.Int('j!aa')], z3.Implies(z3.And(0 <= z3.Int('j!aa'), z3.Int('j!aa') < V_int(i.shape[0])),
               z3.And(i.at(z3.Int('j!aa')) >= 0, i.at(z3.Int('j!aa')) < V_int(c.shape[0])))), 'IndexError', 'add.at index in range')
    vc.require(V_int(i.shape[0]) == V_int(v.shape[0]), 'ValueError', 'add.at shapes')
    old = vc.nd_retype(c, REAL) if c.e != REAL else c
    vv = vc.nd_retype(v, REAL) if v.e != REAL else v
    j = z3.Int('j!sum')

    def at(q):
        q = V_int(q)
        return old.at(q) + SUMR(z3.Lambda([j], z3.If(i.at(j) == q, vv.at(j), z3.RealVal(0))), V_int(i.shape[0]))
    vc.store(o.loc, NDArr(c.shape, REAL, at))


def V_int(x): return z3.IntVal(x) if isinstance(x, int) else x


def world():
    w = World()
    vocabulary(w)
    w.externals['numpy.add.at'] = add_at
    lens = ['len(self.id_to_word) >= ' + N, 'len(self._word_classes) >= 0']
    tot = 'SUM(len({u}) - {n}, lambda j: {u}[{n} + j])'.format(u=UN, n=N)
    w.contract(F + '.has_unigram_probs', returns='bool', ensures=['iff(result, self._unigram_probs is not None)'])
    w.contract(F + '.get_oos_probs', returns='vec[real]',
               requires=lens + [UN + ' is not None', 'len(%s) == len(self.id_to_word)' % UN],
               ensures=['len(result) == len(self.id_to_word)', 'forall(%s, lambda i: result[i] == 1)' % N,
                        'forall(%s, len(self.id_to_word), lambda i: implies(%s != 0, result[i] * (%s) == %s[i]))' % (N, tot, tot, UN),
                        'eqt({0}, old({0}))'.format(UN)])
    cp = 'SUM(%s, lambda j: %s[j] if self.word_id_to_class_id[j] == {0} else 0.0)' % (N, UN)
    ct = 'SUM(len(self._word_classes), lambda c: %s)' % cp.format('c')
    w.contract(F + '.get_class_probs', returns='vec[real]',
               requires=lens + [UN + ' is not None', 'len(%s) == len(self.id_to_word)' % UN,
                                'forall(%s, lambda i: 0 <= self.word_id_to_class_id[i] < len(self._word_classes))' % N,
                                ],
               ensures=['len(result) == len(self._word_classes)',
                        'forall(len(self._word_classes), lambda c: implies(%s > 0, result[c] * (%s) == %s))' % (ct, ct, cp.format('c')),
                        'forall(len(self._word_classes), lambda c: implies(not %s > 0, result[c] == %s))' % (ct, cp.format('c')),
                        'eqt({0}, old({0}))'.format(UN)])
    CNT = '(word_counts[{0}] if {0} in word_counts else 0)'
    bij = ['len(self.word_to_id) == len(self.id_to_word)',
           "forall(len(self.id_to_word), lambda i: self.id_to_word[i] in self.word_to_id and self.word_to_id[self.id_to_word[i]] == i)",
           "forall('str', lambda x: implies(x in self.word_to_id, 0 <= self.word_to_id[x] < len(self.id_to_word) and self.id_to_word[self.word_to_id[x]] == x))",
           '"<s>" in self.word_to_id and "</s>" in self.word_to_id and "<unk>" in self.word_to_id']
    total = 'SUM(len(self.id_to_word), lambda j: %s + 0.0)' % CNT.format('self.id_to_word[j]')
    w.contract(F + '.compute_probs', variant='unigrams', params={'word_counts': 'dict[str,int]', 'update_class_probs': lambda vc: False},
               requires=lens + bij + ["forall('str', lambda x: implies(x in word_counts, word_counts[x] >= 0))"],
               ensures=['len(%s) == len(self.id_to_word)' % UN,
                        'forall(len(self.id_to_word), lambda i: implies(%s > 0, %s[i] * (%s) == %s))' % (total, UN, total, CNT.format('self.id_to_word[i]')),
                        'forall(len(self.id_to_word), lambda i: implies(not %s > 0, %s[i] == %s))' % (total, UN, CNT.format('self.id_to_word[i]')),
                        ],
               loops=[Loop(inv=['len(counts) == len(self.id_to_word)',
                                "forall(len(self.id_to_word), lambda i: counts[i] == (word_counts[self.id_to_word[i]] if self.id_to_word[i] in word_counts and keypos(word_counts, self.id_to_word[i]) < _k else 0))"]),
                      None, None, None, None])
    return w
