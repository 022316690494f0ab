"""P07: shuffled reading."""
import io, os, tempfile, mmap
import numpy
import h5py
from common import *
from batchlib import *
from theanolm.parsing import ShufflingBatchIterator
from theanolm.parsing.functions import find_sentence_starts
from theanolm.parsing.batchiterator import BatchIterator
from theanolm.vocabulary import Vocabulary

VOC = Vocabulary.from_file(io.StringIO('a\nb\n'), 'words')
R = Runner('random files, sampling fractions and interleavings of reading, saving and restoring')


class Data(bytes):
    pass


def gen_s(rng):
    return ''.join(rng.choice(['\n', '\n', 'a', 'bc ', '\r']) for _ in range(rng.randint(1, 14)))


def run_s(t):
    d = t.encode()
    want = [0] + [i + 1 for i in range(len(d)) if d[i] == 10 and i + 1 < len(d)]
    check(list(find_sentence_starts(d)) == want, 'line starts', got=find_sentence_starts(d), want=want)
    with tempfile.TemporaryFile() as f:
        f.write(d)
        f.flush()
        m = mmap.mmap(f.fileno(), 0, prot=mmap.PROT_READ)
        check(list(find_sentence_starts(m)) == want, 'line starts of a mapped file')
        m.close()


R.kind('starts', gen_s, run_s, 1)


class Spy(ShufflingBatchIterator):
    def _prepare_batch(self, sequences):
        return [[(str(w), int(f)) for w, f in s] for s in sequences]


def gen(rng):
    # every line names its file and position, so that duplicates show
    nf = rng.randint(1, 4)
    nl = [rng.choice([1, 2, 3, rng.randint(1, 12)]) for _ in range(nf)]
    blank = [[rng.random() < .1 for _ in range(n)] for n in nl]
    long = [[rng.choice([0, 0, 0, 1, 5]) for _ in range(n)] for n in nl]
    samp = [rng.choice([0.0, 0.25, 0.5, 0.5, 0.7, 1.0, 1.0, 1.0, 1.5, 2.0]) for _ in range(rng.choice([0, nf, nf, rng.randint(0, nf)]))]
    ops = [rng.choice(['batch', 'batch', 'batch', 'save', 'load', 'load', 'epoch', 'len']) for _ in range(rng.randint(3, 12))]
    return {'nl': nl, 'blank': blank, 'long': long, 'sampling': samp, 'b': rng.choice([1, 2, 3, 7]), 'm': rng.choice([None, None, None, 2, 3]),
            'nonl': rng.random() < .4, 'ops': ops, 'seed': rng.randrange(10 ** 6)}


def words_at(c, f, i):
    return [] if c['blank'][f][i] else ['f%d' % f, 'l%d' % i] + ['x'] * c['long'][f][i]


def fractions(c): return [c['sampling'][f] if f < len(c['sampling']) else 1.0 for f in range(len(c['nl']))]


def lines_in(c, it):
    """Rest of the pass, as (file, line) pairs in order; the iterator ends up at the start of the next pass."""
    return [x for b in it for x in b]


def run(c):
    numpy.random.seed(c['seed'])
    if sum(round(fr * n) for fr, n in zip(fractions(c), c['nl'])) == 0: raise Skip()
    with tempfile.TemporaryDirectory() as d:
        fs = []
        for f, n in enumerate(c['nl']):
            p = os.path.join(d, 'f%d' % f)
            ls = [' '.join(words_at(c, f, i)) for i in range(n)]
            with open(p, 'w') as h: h.write('\n'.join(ls) + ('' if c['nonl'] and ls[-1] else '\n'))
            fs.append(open(p))
        try:
            it = Spy(fs, c['sampling'], VOC, batch_size=c['b'], max_sequence_length=c['m'])
            # epochs
            for e in range(2):
                order = [int(x) for x in it._order]
                n = len(it)
                bs = list(it)
                want = batches(expected(c, it, order), c['b'])
                check(bs == want, 'batches of an epoch', got=bs[:6], want=want[:6])
                check(n == len(want), 'number of batches', got=n, want=len(want))
                ptr = [it._sentence_pointers.pointers[i] for i in order]
                for f, (n, fr) in enumerate(zip(c['nl'], fractions(c))):
                    k = [p for (g, p) in ptr if g == f]
                    check(len(k) == round(fr * n), 'sample size of file %d' % f, got=len(k), want=round(fr * n))
                    if fr <= 1: check(len(set(k)) == len(k), 'duplicates in file %d' % f)
            # interleaved saving and restoring
            p = os.path.join(d, 'state.h5')
            saved = None
            with h5py.File(p, 'w') as state:
                for op in c['ops']:
                    if op == 'batch': next(it, None)
                    elif op == 'epoch':
                        for _ in it: pass
                    elif op == 'save':
                        it.get_state(state)
                        saved = expected(c, it, [int(x) for x in it._order][int(it._next_line):])
                    elif op == 'len':
                        if saved is not None:
                            len(it)
                            it.set_state(state)
                            check(lines_in(c, it) == saved, 'rest of the pass after counting and restoring')
                    elif saved is not None:
                        it.set_state(state)
                        got = lines_in(c, it)
                        check(got == saved, 'rest of the pass after restoring', got=got, want=saved)
                # into a new iterator
                if saved is not None:
                    it2 = Spy(fs, c['sampling'], VOC, batch_size=c['b'], max_sequence_length=c['m'])
                    it2.set_state(state)
                    got = lines_in(c, it2)
                    check(got == saved, 'rest of the pass in a new iterator', got=got, want=saved)
                for a in (it,):
                    a.get_state(state)
            for m in it._sentence_pointers.mmaps: m.close()
        finally:
            for f in fs: f.close()


def expected(c, it, order):
    r = []
    for i in order:
        f, pos = it._sentence_pointers.pointers[i]
        k = 0
        start = 0
        for j in range(c['nl'][f]):
            if start == pos: break
            start += len(' '.join(words_at(c, f, j)).encode()) + 1
        else: raise Violation('a line pointer does not point to a line', key=None)
        ws = words_at(c, f, j)
        ws = ['<s>'] + ws + ['</s>'] if ws else []
        r += [[(w, f) for w in q] for q in pieces(ws, c['m']) if len(q) >= 2]
    return r


R.kind('iterate', gen, run, 4)
if __name__ == '__main__': R.main()
