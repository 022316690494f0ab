"""P22: word class optimisation."""
import z3
from pyvc.types import *
from pyvc.vc import World, Loop
from pyvc.builtinsmixin import LOG
from contracts.p03 import some_of

B = 'wordclasses/bigramoptimizer.py::BigramOptimizer'
N = 'wordclasses/numpybigramoptimizer.py::NumpyBigramOptimizer'
ASSUMPTIONS = ['_evaluate and _move (fancy indexing, sparse matrices, numpy.add.at) are outside the verifier: their contracts are assumed here and checked by the bounded '
               'stand-in; in the proofs the predicted change is a finite number that depends only on the state, the word and the class',
               'counts are mathematical integers (int32 in the code)']
EVAL = z3.Function('predicted_change', z3.IntSort(), z3.IntSort(), z3.RealSort())


def world():
    w = World()
    w.specfns['SOME'] = lambda vc, a, k: T(INT, z3.Int('no class')) if a[0] is None else some_of(vc, a, k)
    w.specfns['EVAL'] = lambda vc, a, k: T(REAL, EVAL(vc.intt(a[0]), vc.intt(a[1])))
    w.externals['numpy.log'] = lambda vc, a, k: T(REAL, LOG(vc.real(a[0])))
    # the predicted change is finite
    inf = z3.Real('numpy!inf')
    w.externals['numpy.inf'] = T(REAL, inf)
    w.specfns['NEGINF'] = lambda vc, a, k: T(REAL, -inf)
    a, b = z3.Ints('ev!a ev!b')
    w.axioms += [inf > 0, z3.ForAll([a, b], z3.And(EVAL(a, b) > -inf, EVAL(a, b) < inf), patterns=[EVAL(a, b)])]
    w.record('Vocabulary', word_to_id='dict[str,int]')
    w.record('NumpyBigramOptimizer', N, _initial_vocabulary=w.records['Vocabulary'], vocabulary_size='int', num_classes='int', num_normal_classes='int',
             _word_to_class='vec[int]', _word_counts='vec[int]', _class_counts='vec[int]', _cc_counts='mat[int]', _cw_counts='mat[int]', _wc_counts='mat[int]')
    O = {'self_rec': 'NumpyBigramOptimizer'}
    SANE = ['len(self._word_to_class) == self.vocabulary_size', 'forall(self.vocabulary_size, lambda w: 0 <= self._word_to_class[w] < self.num_classes)',
            '0 <= self.num_normal_classes <= self.num_classes']
    WORD = '0 <= word_id < self.vocabulary_size'
    w.contract(N + '.get_word_class', params={'word_id': 'int'}, requires=SANE + [WORD], returns='int', ensures=['result == self._word_to_class[word_id]'])
    w.contract(N + '.get_word_prob', params={'word_id': 'int'}, requires=SANE + [WORD, 'len(self._word_counts) == self.vocabulary_size', 'len(self._class_counts) == self.num_classes'],
               returns='real', ensures=['implies(self._class_counts[self._word_to_class[word_id]] == 0, result == 0)',
                                        'implies(self._class_counts[self._word_to_class[word_id]] != 0, '
                                        'result * self._class_counts[self._word_to_class[word_id]] == self._word_counts[word_id])'])
    w.contract(N + '._ll_change', params={'old_count': 'int', 'new_count': 'int'}, returns='real',
               ensures=['result == (0 if new_count == 0 else new_count * LOG(new_count)) - (0 if old_count == 0 else old_count * LOG(old_count))'])
    w.contract(B + '.get_word_id', params={'word': 'str'}, opts=O, requires=['word in self._initial_vocabulary.word_to_id'], returns='int',
               ensures=['result == self._initial_vocabulary.word_to_id[word]'])
    w.contract(N + '._evaluate', assume_only=True, params={'word_id': 'int', 'new_class_id': 'int'},
               requires=[WORD, '0 <= new_class_id < self.num_classes', 'new_class_id != self._word_to_class[word_id]'], returns='real',
               ensures=['result == EVAL(word_id, new_class_id)'], note='bounded: equals the difference of the log likelihoods')
    w.contract(N + '._class_size', assume_only=True, params={'class_id': 'int'}, returns='int',
               ensures=['iff(result < 2, forall(self.vocabulary_size, lambda a: forall(self.vocabulary_size, lambda b: '
                        'implies(self._word_to_class[a] == class_id and self._word_to_class[b] == class_id, a == b))))'], note='numpy.count_nonzero')
    w.contract(N + '._move', assume_only=True, params={'word_id': 'int', 'new_class_id': 'int'},
               requires=[WORD, '0 <= new_class_id < self.num_classes', 'new_class_id != self._word_to_class[word_id]'],
               modifies=['self._word_to_class', 'self._class_counts', 'self._cc_counts', 'self._cw_counts', 'self._wc_counts'],
               ensures=['len(self._word_to_class) == self.vocabulary_size', 'self._word_to_class[word_id] == new_class_id',
                        'forall(self.vocabulary_size, lambda w: implies(w != word_id, self._word_to_class[w] == old(self._word_to_class)[w]))'],
               note='bounded: the statistics equal a recount')
    OWN = 'self._word_to_class[word_id]'
    BEST = ['implies(result[1] is None, forall(self.num_normal_classes, lambda c: c == %s))' % OWN,
            'implies(result[1] is None, result[0] <= 0)',
            'implies(result[1] is not None, 0 <= SOME(result[1]) < self.num_normal_classes and SOME(result[1]) != %s and result[0] == EVAL(word_id, SOME(result[1])))' % OWN,
            'implies(result[1] is not None, forall(self.num_normal_classes, lambda c: c == %s or EVAL(word_id, c) <= result[0]))' % OWN]
    INV = ['implies(best_class_id is None, forall(_k, lambda c: c == old_class_id))', 'implies(best_class_id is None, best_ll_diff == NEGINF())',
           'implies(best_class_id is not None, 0 <= SOME(best_class_id) < _k and SOME(best_class_id) != old_class_id and best_ll_diff == EVAL(word_id, SOME(best_class_id)))',
           'implies(best_class_id is not None, forall(_k, lambda c: c == old_class_id or EVAL(word_id, c) <= best_ll_diff))']
    w.contract(B + '._find_best_move', params={'word_id': 'int'}, opts=O, requires=SANE + [WORD], returns='tup[real,opt[int]]', ensures=BEST,
               loops=[Loop(types={'best_class_id': 'opt[int]', 'best_ll_diff': 'real', 'll_diff': 'real'}, inv=INV)])
    W = 'self._initial_vocabulary.word_to_id[word]'
    OLD = 'old(self._word_to_class)[%s]' % W
    moved = 'self._word_to_class[%s]' % W
    w.contract(B + '.move_to_best_class', params={'word': 'str'}, opts=O, returns='bool',
               requires=SANE + ['word in self._initial_vocabulary.word_to_id', '0 <= %s < self.vocabulary_size' % W],
               modifies=['self._word_to_class', 'self._class_counts', 'self._cc_counts', 'self._cw_counts', 'self._wc_counts'],
               ensures=["implies(word.startswith('<') and word.endswith('>'), result == False)",
                        'implies(not result, forall(self.vocabulary_size, lambda w: self._word_to_class[w] == old(self._word_to_class)[w]))',
                        'implies(not result, eqt(self._cc_counts, old(self._cc_counts)) and eqt(self._class_counts, old(self._class_counts)) and '
                        'eqt(self._cw_counts, old(self._cw_counts)) and eqt(self._wc_counts, old(self._wc_counts)))',
                        'implies(result, {0} != {1} and 0 <= {0} < self.num_normal_classes and EVAL({2}, {0}) > 0)'.format(moved, OLD, W),
                        'implies(result, forall(self.num_normal_classes, lambda c: c == {1} or EVAL({2}, c) <= EVAL({2}, {0})))'.format(moved, OLD, W),
                        'implies(result, exists(self.vocabulary_size, lambda w: w != {1} and self._word_to_class[w] == {0}))'.format(OLD, W),
                        'forall(self.vocabulary_size, lambda w: w == %s or self._word_to_class[w] == old(self._word_to_class)[w])' % W,
                        "implies(not result, (word.startswith('<') and word.endswith('>')) or forall(self.vocabulary_size, lambda w: w == {2} or self._word_to_class[w] != {1}) or "
                        "forall(self.num_normal_classes, lambda c: c == {1} or EVAL({2}, c) <= 0))".format(moved, OLD, W)])
    return w
