from common import *
import logging
import math
import numpy
import scipy.sparse
import theano
logging.disable(logging.CRITICAL)
from theanolm.vocabulary import Vocabulary
from wordclasses import NumpyBigramOptimizer
from wordclasses.theanobigramoptimizer import TheanoBigramOptimizer


class Stats:
    """Counts of words and bigrams (what BigramStatistics provides)."""
    def __init__(self, n, bigrams):
        self.unigram_counts = numpy.zeros(n, 'int32')
        self.bigram_counts = scipy.sparse.dok_matrix((n, n), dtype='int32')
        for a, b, k in bigrams: self.bigram_counts[a, b] += k


def gen(rng):
    nw = rng.choice([2, 3, 4, rng.randint(2, 9)])
    ncls = rng.choice([1, 2, 3, max(1, nw - 1)])
    words = ['w%d' % i for i in range(nw)]
    wc = [[w, rng.choice([1, 2, 5, rng.randint(0, 30)])] for w in words]
    n = nw + 3
    bi, tot = {}, {}
    for _ in range(rng.choice([1, 2, n, 3 * n])):
        a, b = rng.randrange(n), rng.randrange(n)
        if rng.random() < .15: b = a
        bi[(a, b)] = bi.get((a, b), 0) + rng.choice([1, 1, 2, 7])
    return {'wc': wc, 'ncls': ncls, 'bi': [[a, b, k] for (a, b), k in bi.items()], 'uni': [rng.choice([0, 1, 3, rng.randint(0, 40)]) for _ in range(n)] if rng.random() < .5 else None,
            'moves': [[rng.randrange(nw), rng.randrange(ncls)] for _ in range(rng.randint(0, 6))], 'best': [rng.randrange(n) for _ in range(rng.randint(1, 5))]}


def recount(n, ncls, uni, bi, cls):
    """all statistics by their definition"""
    c, cc = [0] * ncls, [[0] * ncls for _ in range(ncls)]
    cw, wc = [[0] * n for _ in range(ncls)], [[0] * ncls for _ in range(n)]
    for w in range(n): c[cls[w]] += uni[w]
    for a, b, k in bi:
        cc[cls[a]][cls[b]] += k
        cw[cls[a]][b] += k
        wc[a][cls[b]] += k
    return c, cc, cw, wc


xlx = lambda x: x * math.log(x) if x else 0.0


def likelihood(uni, c, cc):
    return sum(xlx(x) for r in cc for x in r) + sum(xlx(x) for x in uni) - 2 * sum(xlx(x) for x in c)


def val(x): return numpy.asarray(x.get_value() if hasattr(x, 'get_value') else x)


def run_with(cls_, c, every=True):
    v = Vocabulary.from_word_counts(dict((w, k) for w, k in c['wc']), c['ncls'])
    n = v.num_shortlist_words()
    s = Stats(n, c['bi'])
    uni = c['uni']
    if uni is None:
        uni = [0] * n
        for a, b, k in c['bi']: uni[a] += k
        for a, b, k in c['bi']:
            if v.id_to_word[b] == '</s>': uni[b] += k
    if not any(uni): raise Skip()
    s.unigram_counts[:] = uni
    with numpy.errstate(all='ignore'):
        o = cls_(s, v)
    words = [v.id_to_word[i] for i in range(n)]
    cur = [int(v.word_id_to_class_id[i]) for i in range(n)]
    nc, normal = o.num_classes, o.num_normal_classes

    def state():
        got = [int(o.get_word_class(i)) for i in range(n)]
        check(got == cur, 'every word is in its class', got=got, want=cur)
        w = recount(n, nc, uni, c['bi'], cur)
        for name, x, want in (('class', o._class_counts, w[0]), ('class-class', o._cc_counts, w[1]), ('class-word', o._cw_counts, w[2]), ('word-class', o._wc_counts, w[3])):
            check((val(x) == numpy.asarray(want)).all(), name + ' counts', got=val(x), want=want)
        ll = likelihood(uni, w[0], w[1])
        check(close(float(o.log_likelihood()), ll), 'log likelihood', got=float(o.log_likelihood()), want=ll)
        return ll

    def after(word, k):
        other = list(cur)
        other[word] = k
        w = recount(n, nc, uni, c['bi'], other)
        return likelihood(uni, w[0], w[1])
    before = state()
    normals = [i for i in range(n) if not words[i].startswith('<')]
    with numpy.errstate(all='ignore'):
        for wi, k in c['moves']:
            w = normals[wi % len(normals)]
            k = k % normal
            if k == cur[w]: continue
            d = float(o._evaluate(w, k))
            want = after(w, k) - before
            check(abs(d - want) <= 1e-4 * max(1, abs(before)), 'predicted change of the log likelihood', word=words[w], to=k, got=d, want=want)
            o._move(w, k)
            cur[w] = k
            before = state()
        used = set(cur)
        for i in c['best']:
            w = i % n
            changes = [(after(w, k) - before, k) for k in range(normal) if k != cur[w]]
            best = max(changes)[0] if changes else None
            moved = o.move_to_best_class(words[w])
            check(type(moved) is bool or moved in (0, 1), 'tells whether the word moved')
            tol = 1e-5 * max(1, abs(before))
            special = words[w] in ('<s>', '</s>', '<unk>')
            last = cur.count(cur[w]) < 2
            new = int(o.get_word_class(w))
            check(bool(moved) == (new != cur[w]), 'tells whether the word moved', got=moved)
            if special or last or best is None: check(new == cur[w], 'special tokens and last words do not move', word=words[w])
            elif best > tol:
                check(new != cur[w], 'a word moves when the log likelihood increases', word=words[w], best=best)
            elif best < -tol: check(new == cur[w], 'a word does not move when the log likelihood would decrease', word=words[w], best=best)
            if new != cur[w]:
                check(new < normal and after(w, new) - before >= best - tol, 'to the class with the largest increase', word=words[w], to=new)
            cur[w] = new
            before = state()
            check(all(cur.count(k) for k in used), 'no class loses its last word')
    probs = {w: (int(k), float(p)) for w, k, p in o.words()}
    check(set(probs) == set(words), 'every word is listed')
    w = recount(n, nc, uni, c['bi'], cur)
    for i in range(n):
        p = uni[i] / w[0][cur[i]] if w[0][cur[i]] else 0.0
        check(probs[words[i]][0] == cur[i] and close(probs[words[i]][1], p), 'class and membership probability of a word', word=words[i], got=probs[words[i]], want=(cur[i], p))


def run(c): run_with(NumpyBigramOptimizer, c)
def run_theano(c): run_with(TheanoBigramOptimizer, c)


R = Runner('Real NumpyBigramOptimizer and TheanoBigramOptimizer on random counts and sequences of moves: after every move all statistics are recounted from the bigrams, predicted changes are compared with the difference of the log likelihoods, and moves with the best class found by trying all.')
R.kind('numpy', gen, run, weight=3)
R.kind('theano', gen, run_theano, weight=2, n=10)
if __name__ == '__main__': R.main()
