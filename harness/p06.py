"""P06: mini-batch matrices."""
import io
import numpy
from common import *
from batchlib import *
import voclib
from theanolm.parsing import LinearBatchIterator, ScoringBatchIterator
from theanolm.vocabulary import Vocabulary

R = Runner('random vocabularies and sequences')


def gen(rng):
    v = voclib.gen_voc(rng)
    pool = v['words'] + (v['oos'] or []) + ['zz', 'yy', '<unk>', '<s>', '</s>']
    n = rng.choice([1, 1, 2, 3, 8])
    maxf = rng.choice([1, 3, 3, 127, 128, 200, 300, 40000])
    seqs = [[[rng.choice(pool), rng.randrange(maxf)] for _ in range(rng.choice([2, 3, rng.randint(2, 12)]))] for _ in range(n)]
    return {'voc': v, 'seqs': seqs, 'map': rng.random() < .5, 'cls': rng.choice(['lin', 'sco'])}


def run(c):
    v = voclib.build(c['voc'])
    words, nshort = voclib.model(c['voc'])[:2]
    ids = {}
    for i, w in enumerate(words): ids.setdefault(w, i)
    unk = ids['<unk>']
    it = (LinearBatchIterator if c['cls'] == 'lin' else ScoringBatchIterator)(io.StringIO(''), v, map_oos_to_unk=c['map'])
    seqs = [[tuple(x) for x in s] for s in c['seqs']]
    a, b, m = it._prepare_batch(seqs)
    L = max(len(s) for s in seqs)
    check(a.shape == (L, len(seqs)) and m.shape == a.shape, 'shape', got=[a.shape, m.shape])
    if c['cls'] == 'lin': check(b.shape == a.shape, 'shape of the file IDs')
    else: check([list(x) for x in b] == [[w for w, _ in s] for s in seqs], 'words')
    for j, s in enumerate(seqs):
        for t in range(L):
            check(m[t, j] == (1 if t < len(s) else 0), 'mask', t=t, j=j)
            if t < len(s):
                w, f = s[t]
                i = ids.get(w, unk)
                if c['map'] and i >= nshort: i = unk
                if c['cls'] == 'lin': check(b[t, j] == f, 'file ID', t=t, j=j, got=int(b[t, j]), want=f)
            else: i = unk
            check(a[t, j] == i, 'word ID', t=t, j=j, got=int(a[t, j]), want=i)


R.kind('batch', gen, run, 3)


def gen_end(rng):
    v = voclib.gen_voc(rng)
    return {'voc': v, 'files': gen_files(rng), 'b': rng.choice([1, 2, 4]), 'm': rng.choice([None, 3, 5]), 'map': rng.random() < .5, 'cls': rng.choice(['lin', 'sco'])}


def run_end(c):
    v = voclib.build(c['voc'])
    words, nshort = voclib.model(c['voc'])[:2]
    ids = {}
    for i, w in enumerate(words): ids.setdefault(w, i)
    it = (LinearBatchIterator if c['cls'] == 'lin' else ScoringBatchIterator)([io.StringIO(t) for t in c['files']], v, c['b'], c['m'], c['map'])
    got = []
    for a, b, m in it:
        for j in range(a.shape[1]):
            n = int(m[:, j].sum())
            got.append(([int(x) for x in a[:n, j]], [int(x) for x in b[:n, j]] if c['cls'] == 'lin' else list(b[j])))
    want = []
    for s in sequences(c['files'], c['m']):
        k = [ids.get(w, ids['<unk>']) for w, _ in s]
        if c['map']: k = [i if i < nshort else ids['<unk>'] for i in k]
        want.append((k, [f for _, f in s] if c['cls'] == 'lin' else [w for w, _ in s]))
    check(got == want, 'what was read', got=got[:5], want=want[:5])


R.kind('files', gen_end, run_end, 1)
if __name__ == '__main__': R.main()
