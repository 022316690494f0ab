"""P01: construction of vocabularies."""
import z3
from pyvc.types import *
from pyvc.vc import World, Loop
from contracts.vocab import *

ASSUMPTIONS = ['str.strip, str.split, int and float of a string are uninterpreted functions of the string (they may raise ValueError)',
               'that the loop bodies do not share class objects is part of the invariant (class IDs are distinct)']


def inv(words, w2c, classes, heap=''):
    """The consistency of the three lists."""
    d = dict(w=words, c=w2c, k=classes)
    return [x.format(**d) for x in (
        'forall(len({w}), lambda i: forall(len({w}), lambda j: implies({w}[i] == {w}[j], i == j)))',
        'forall(len({c}), lambda i: 0 <= {c}[i] < len({k}) and i in {k}[{c}[i]]._probs)',
        "forall(len({k}), lambda q: forall('int', lambda i: implies(i in {k}[q]._probs, 0 <= i < len({c}) and {c}[i] == q)))",
        'forall(len({k}), lambda q: {k}[q].id == q and len({k}[q]._probs) >= 1)')]


def world():
    w = World()
    vocabulary(w)
    P = 'self._probs'
    FRAME = "forall('int', lambda x: implies(x != word_id, iff(x in self._probs, x in old(self._probs)) and implies(x in self._probs, self._probs[x] == old(self._probs[x]))))"
    w.contract(C + '.__init__', params={'class_id': 'int', 'word_id': 'int', 'prob': 'real'},
               ensures=['self.id == class_id', 'word_id in self._probs and self._probs[word_id] == prob and len(self._probs) == 1',
                        "forall('int', lambda x: iff(x in self._probs, x == word_id))"])
    for f in ('add', 'set_prob'):
        w.contract(C + '.' + f, params={'word_id': 'int', 'prob': 'real'}, modifies=['self._probs'],
                   ensures=['word_id in self._probs and self._probs[word_id] == prob', FRAME,
                            'len(self._probs) == old(len(self._probs)) + (0 if old(word_id in self._probs) else 1)', 'self.id == old(self.id)'])
    w.contract(C + '.get_prob', params={'word_id': 'int'}, requires=['word_id in self._probs'], returns='real',
               ensures=['result == self._probs[word_id]'])
    w.contract(C + '.__len__', returns='int', ensures=['result == len(self._probs)'])
    w.contract(C + '.__iter__', returns='list[tup[int,real]]',
               ensures=['len(result) == len(self._probs)',
                        'forall(len(result), lambda j: result[j][0] == keyat(self._probs, j) and result[j][0] in self._probs and result[j][1] == self._probs[keyat(self._probs, j)])'],
               loops=[Loop(inv=['len(yields) == _k', 'forall(_k, lambda j: yields[j][0] == keyat(self._probs, j) and yields[j][0] in self._probs and yields[j][1] == self._probs[keyat(self._probs, j)])'])])
    S = 'SUM(len(old(self._probs)), lambda j: old(self._probs)[keyat(old(self._probs), j)])'
    w.contract(C + '.normalize_probs', modifies=['self._probs'], may_raise=['ZeroDivisionError'],
               ensures=["forall('int', lambda x: iff(x in self._probs, x in old(self._probs)))", 'len(self._probs) == old(len(self._probs))',
                        "forall('int', lambda x: implies(x in self._probs, self._probs[x] * %s == old(self._probs)[x]))" % S],
               loops=[Loop(inv=['implies(_k > 0, prob_sum != 0)', "forall('int', lambda x: iff(x in self._probs, x in old(self._probs)))", 'len(self._probs) == old(len(self._probs))',
                                'forall(len(self._probs), lambda j: keyat(self._probs, j) == keyat(old(self._probs), j))',
                                "forall(len(self._probs), lambda j: self._probs[keyat(self._probs, j)] == (old(self._probs)[keyat(self._probs, j)] / prob_sum if j < _k else old(self._probs)[keyat(self._probs, j)]))"])])
    I = inv('id_to_word', 'word_id_to_class_id', 'word_classes')
    w.contract(V_ + '_add_special_tokens', params={'id_to_word': 'list[str]', 'word_id_to_class_id': 'list[int]', 'word_classes': 'list[ref[WordClass]]'},
               requires=I, modifies=['id_to_word', 'word_id_to_class_id', 'word_classes'],
               raises={'ValueError': 'len(id_to_word) != len(word_id_to_class_id)'},
               ensures=I + ['len(id_to_word) == len(word_id_to_class_id)', '"<s>" in id_to_word and "</s>" in id_to_word and "<unk>" in id_to_word',
                            'len(id_to_word) >= old(len(id_to_word)) and forall(old(len(id_to_word)), lambda i: id_to_word[i] == old(id_to_word)[i] and word_id_to_class_id[i] == old(word_id_to_class_id)[i])',
                            'forall(old(len(id_to_word)), len(id_to_word), lambda i: id_to_word[i] in ("<s>", "</s>", "<unk>") and len(word_classes[word_id_to_class_id[i]]._probs) == 1)',
                            'len(word_classes) >= old(len(word_classes)) and forall(old(len(word_classes)), lambda q: word_classes[q] is old(word_classes)[q])'])
    SP = '"<s>" in {0} and "</s>" in {0} and "<unk>" in {0}'
    J = inv('self.id_to_word', 'self.word_id_to_class_id', 'self._word_classes')
    w.contract(F + '.__init__', params={'id_to_word': 'list[str]', 'word_id_to_class_id': 'list[int]', 'word_classes': 'list[ref[WordClass]]'},
               requires=I + ['len(word_id_to_class_id) <= len(id_to_word)'],
               modifies=['WordClass._probs', 'self.id_to_word', 'self.word_id_to_class_id', 'self._word_classes', 'self.word_to_id', 'self._unigram_probs', 'self.num_normal_classes'], may_raise=['ZeroDivisionError'],
               raises={'ValueError': 'not (%s)' % SP.format('id_to_word')},
               ensures=J + ['len(self.id_to_word) == len(id_to_word) and len(self.word_id_to_class_id) == len(word_id_to_class_id) and len(self._word_classes) == len(word_classes)',
                            'forall(len(id_to_word), lambda i: self.id_to_word[i] == id_to_word[i] and self.word_to_id[id_to_word[i]] == i and id_to_word[i] in self.word_to_id)',
                            'forall(len(word_id_to_class_id), lambda i: self.word_id_to_class_id[i] == word_id_to_class_id[i])',
                            "forall('str', lambda x: implies(x in self.word_to_id, 0 <= self.word_to_id[x] < len(self.id_to_word) and self.id_to_word[self.word_to_id[x]] == x))",
                            SP.format('self.word_to_id'), 'self._unigram_probs is None'],
               loops=[Loop(inv=['-1 <= index < len(word_classes)'], decreases='index + 1'),
                      Loop(inv=inv('id_to_word', 'word_id_to_class_id', 'word_classes')[1:])])
    FL = 'input_file[{0}].strip().split()'
    NF = {'words': 1, 'classes': 2, 'srilm-classes': 3}
    for fmt in ('words', 'classes', 'srilm-classes'):
        for oos in (False, True):
            nf = NF[fmt]
            wi = 2 if nf == 3 else 0
            ft = {'words': None, 'classes': 'int', 'srilm-classes': 'str'}[fmt]
            li = inv('id_to_word', 'word_id_to_class_id', 'word_classes') + [
                'len(id_to_word) == len(word_id_to_class_id)',
                "forall('str', lambda x: iff(x in words, x in id_to_word))",
                'forall(_k, lambda i: implies(len({0}) > 0, len({0}) == {1} and {0}[{2}] in words))'.format(FL.format('i'), nf, wi),
                'forall(len(id_to_word), lambda j: exists(_k, lambda i: len({0}) == {1} and {0}[{2}] == id_to_word[j]))'.format(FL.format('i'), nf, wi)]
            if ft:
                li.append("forall('%s', lambda f: implies(f in file_id_to_class_id, 0 <= file_id_to_class_id[f] < len(word_classes)))" % ft)
            types = {'words': 'set[str]', 'id_to_word': 'list[str]', 'word_id_to_class_id': 'list[int]', 'word_classes': 'list[ref[WordClass]]'}
            if ft: types['file_id_to_class_id'] = 'dict[%s,int]' % ft
            w.contract(F + '.from_file', variant=fmt + (' with oos words' if oos else ''),
                       params={'input_file': 'list[str]', 'input_format': lambda vc, fmt=fmt: fmt, 'oos_words': 'list[str]' if oos else (lambda vc: None)},
                       modifies=['WordClass._probs', 'WordClass.id'], may_raise=['ZeroDivisionError', 'InputError'] + ([] if fmt == 'words' else ['ValueError']),
                       ensures=inv('result.id_to_word', 'result.word_id_to_class_id', 'result._word_classes') + [
                           'forall(len(input_file), lambda i: implies(len({0}) > 0, len({0}) == {1} and {0}[{2}] in result.word_to_id and result.word_to_id[{0}[{2}]] < len(result.word_id_to_class_id)))'.format(FL.format('i'), nf, wi),
                           SP.format('result.word_to_id'), 'len(result.word_id_to_class_id) <= len(result.id_to_word)'] + ([
                           'forall(len(oos_words), lambda i: oos_words[i] in result.word_to_id)',
                           'forall(len(result.word_id_to_class_id), len(result.id_to_word), lambda j: result.id_to_word[j] in oos_words)'] if oos else [
                           'len(result.word_id_to_class_id) == len(result.id_to_word)']),
                       locals=types,
                       loops=[Loop(inv=li, types=types)] + ([Loop(inv=inv('id_to_word', 'word_id_to_class_id', 'word_classes') + [
                           "forall('str', lambda x: iff(x in words, x in id_to_word))",
                           'len(id_to_word) >= len(word_id_to_class_id) and len(word_id_to_class_id) == entry(len(id_to_word))',
                           'forall(entry(len(id_to_word)), lambda j: id_to_word[j] == entry(id_to_word)[j])',
                           'forall(_k, lambda i: oos_words[i] in words)',
                           'forall(entry(len(id_to_word)), len(id_to_word), lambda j: exists(_k, lambda i: oos_words[i] == id_to_word[j]))'])] if oos else [None]))
    return w
