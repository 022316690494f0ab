"""Shared declarations: Vocabulary and WordClass."""
from pyvc.types import *
from pyvc.vc import BuiltinV

V_ = 'theanolm/vocabulary/vocabulary.py::'
F = V_ + 'Vocabulary'
C = 'theanolm/vocabulary/wordclass.py::WordClass'

# every shortlist word is a member of its class
MEMBER = ('forall(len(self.word_id_to_class_id), lambda i: 0 <= self.word_id_to_class_id[i] < len(self._word_classes) and '
          'i in self._word_classes[self.word_id_to_class_id[i]]._probs)')


def vocabulary(w):
    w.heap_class('WordClass', C, id='int', _probs='dict[int,real]')
    w.record('Vocabulary', F, id_to_word='vec[str]', word_id_to_class_id='vec[int]', _word_classes='vec[ref[WordClass]]',
             word_to_id='dict[str,int]', _unigram_probs='opt[vec[real]]', num_normal_classes='int')

    def vectorize(vc, a, k):
        return BuiltinV('vectorized', lambda vc, b, kk: vc.elementwise(b, lambda *xs: vc.call(a[0], list(xs), {})))
    w.externals['numpy.vectorize'] = vectorize


def lookup_contracts(w):
    w.contract(C + '.get_prob', params={'word_id': 'int'}, requires=['word_id in self._probs'], returns='real',
               ensures=['result == self._probs[word_id]'])
