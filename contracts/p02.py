"""P02: lookup of words and class memberships."""
from pyvc.types import *
from pyvc.vc import World, Loop
from contracts.vocab import *

ASSUMPTIONS = ['numpy.vectorize(f) applies f elementwise']


def world():
    w = World()
    vocabulary(w)
    lookup_contracts(w)
    ID = '(self.word_to_id[{0}] if {0} in self.word_to_id else self.word_to_id["<unk>"])'
    w.contract(F + '.words_to_ids', params={'words': 'list[str]'}, requires=['"<unk>" in self.word_to_id'], returns='vec[int]',
               ensures=['len(result) == len(words)', 'forall(words, lambda i: result[i] == %s)' % ID.format('words[i]')],
               loops=[Loop(inv=['len(result) == len(words)', 'forall(_k, lambda i: result[i] == %s)' % ID.format('words[i]')])])
    IN = '(word_ids[{0}] if word_ids[{0}] < len(self.word_id_to_class_id) else self.word_to_id["<unk>"])'
    req = ['"<unk>" in self.word_to_id', '0 <= self.word_to_id["<unk>"] < len(self.word_id_to_class_id)', MEMBER]
    for nd, ix, var in (('vec', 'i', ['len(word_ids)']), ('mat', 'i, j', ['word_ids.shape[0]', 'word_ids.shape[1]'])):
        fa = (lambda b: 'forall(%s, lambda i: %s)' % (var[0], b)) if nd == 'vec' else (
            lambda b: 'forall(%s, lambda i: forall(%s, lambda j: %s))' % (var[0], var[1], b))
        i = IN.format(ix)
        w.contract(F + '.get_class_memberships', variant=nd, params={'word_ids': nd + '[int]'},
                   requires=req + [fa('0 <= word_ids[%s]' % ix)],
                   ensures=['result[0].shape == word_ids.shape', 'result[1].shape == word_ids.shape',
                            fa('result[0][%s] == self.word_id_to_class_id[%s]' % (ix, i)),
                            fa('result[1][%s] == self._word_classes[self.word_id_to_class_id[%s]]._probs[%s]' % (ix, i, i)),
                            'eqt(word_ids, old(word_ids))'])
    w.contract(F + '.get_word_prob', params={'word_id': 'int'}, requires=[MEMBER, '0 <= word_id < len(self.word_id_to_class_id)'],
               returns='real', ensures=['result == self._word_classes[self.word_id_to_class_id[word_id]]._probs[word_id]'])
    w.contract(F + '.in_shortlist', params={'word_id': 'int'}, returns='bool', ensures=['iff(result, word_id < len(self.word_id_to_class_id))'])
    w.contract(F + '.__contains__', params={'word': 'str'}, returns='bool', ensures=['iff(result, word in self.word_to_id)'])
    w.contract(F + '.num_words', returns='int', ensures=['result == len(self.id_to_word)'])
    w.contract(F + '.num_shortlist_words', returns='int', ensures=['result == len(self.word_id_to_class_id)'])
    w.contract(F + '.num_classes', returns='int', ensures=['result == len(self._word_classes)'])
    return w
