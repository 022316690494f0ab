"""P06: mini-batch matrices."""
import z3
from pyvc.types import *
from pyvc.vc import World, Loop
from contracts.vocab import *

B = 'theanolm/parsing/batchiterator.py::BatchIterator._prepare_batch'
S = 'theanolm/parsing/scoringbatchiterator.py::ScoringBatchIterator._prepare_batch'
ASSUMPTIONS = ['64-bit integer arrays hold any word or file ID; storing into arrays of smaller integers is checked']


def world():
    w = World()
    vocabulary(w)
    w.record('Iter', B.rsplit('.', 1)[0], _vocabulary=w.records['Vocabulary'], _map_oos_to_unk='bool')
    w.record('Scoring', S.rsplit('.', 1)[0], _vocabulary=w.records['Vocabulary'], _map_oos_to_unk='bool')
    w.contract(F + '.__contains__', params={'word': 'str'}, returns='bool', ensures=['iff(result, word in self.word_to_id)'])
    w.contract(F + '.in_shortlist', params={'word_id': 'int'}, returns='bool', ensures=['iff(result, word_id < len(self.word_id_to_class_id))'])
    V = 'self._vocabulary'
    unk = V + '.word_to_id["<unk>"]'
    wid = '({v}.word_to_id[{{0}}] if {{0}} in {v}.word_to_id and (not self._map_oos_to_unk or {v}.word_to_id[{{0}}] < len({v}.word_id_to_class_id)) else {u})'.format(v=V, u=unk)
    N, Ln = 'len(sequences)', 'len(sequences[s])'
    for fn, rec, sc in ((B, 'Iter', False), (S, 'Scoring', True)):
        ids, msk, oth = ('result[0]', 'result[2]', 'result[1]')

        def cols(hi, ids, msk, oth):
            fa = lambda b: 'forall(%s, lambda s: forall(%s.shape[0], lambda t: %s))' % (hi, ids, b)
            r = [fa('%s[t, s] == (1 if t < %s else 0)' % (msk, Ln)), fa('t >= %s or %s[t, s] == %s' % (Ln, ids, wid.format('sequences[s][t][0]'))), fa('t < %s or %s[t, s] == %s' % (Ln, ids, unk))]
            if sc: r += ['len(%s) == %s' % (oth, hi), 'forall(%s, lambda s: len(%s[s]) == %s and forall(%s, lambda t: %s[s][t] == sequences[s][t][0]))' % (hi, oth, Ln, Ln, oth)]
            else: r.append(fa('t >= %s or %s[t, s] == sequences[s][t][1]' % (Ln, oth)))
            return r
        sh = ['{0}.shape[1] == {1} and {2}.shape == {0}.shape'.format(ids, N, msk), 'forall(%s, lambda s: %s <= %s.shape[0])' % (N, Ln, ids), 'exists(%s, lambda s: %s == %s.shape[0])' % (N, Ln, ids)]
        if not sc: sh.append('%s.shape == %s.shape' % (oth, ids))
        seq = 'sequences[i]' if False else 'sequence'
        inner = ['forall(_k, lambda t: sequence_word_ids[t] == %s)' % wid.format('sequence[t][0]'), 'forall(_k, length, lambda t: sequence_word_ids[t] == %s)' % unk, 'len(sequence_word_ids) == length']
        inner += ['len(sequence_words) == _k', 'forall(_k, lambda t: sequence_words[t] == sequence[t][0])'] if sc else ['forall(_k, lambda t: sequence_file_ids[t] == sequence[t][1])', 'len(sequence_file_ids) == length']
        other = 'words' if sc else 'file_ids'
        outer = cols('_k', 'word_ids', 'mask', other) + ['forall(_k, {n}, lambda s: forall(word_ids.shape[0], lambda t: word_ids[t, s] == {u} and mask[t, s] == 0))'.format(n=N, u=unk),
                                                         'forall(%s, lambda s: %s <= word_ids.shape[0])' % (N, Ln)]
        w.contract(fn, params={'sequences': 'list[list[tup[str,int]]]'}, opts={'self_rec': rec, 'cost': 5},
                   requires=['"<unk>" in %s.word_to_id' % V, '%s >= 1' % N, 'forall(%s, lambda s: forall(%s, lambda t: sequences[s][t][1] >= 0))' % (N, Ln)],
                   ensures=sh + cols(N, ids, msk, oth), loops=[Loop(inv=outer, types={'words': 'list[list[str]]'}), Loop(inv=inner, types={'sequence_words': 'list[str]'})])
    return w
