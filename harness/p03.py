from common import *
import os
import tempfile
import h5py
import numpy
from voclib import *
from p01 import same_voc


def gen(rng):
    a = gen_voc(rng)
    words, n, _, _ = model(a)
    b = None
    if rng.random() < .5:
        for _ in range(300):
            x = gen_voc(rng)
            m = model(x)
            if len(m[0]) == len(words) and m[1] == n: b = x; break
        if b is None:
            b = json.loads(json.dumps(a))
            b['probs'] = [0.5 + i for i in range(len(b['probs']))]
    def cnt(c):
        return [[w, rng.randint(0, 9)] for w in model(c)[0] if rng.random() < .8] if rng.random() < .6 else None
    return {'a': a, 'b': b, 'ca': cnt(a), 'cb': cnt(b) if b else None, 'ua': rng.random() < .5, 'reopen': rng.random() < .3}


def write(path, v, mode):
    with h5py.File(path, mode) as f: v.get_state(f)


def run(c):
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, 's.h5')
        with h5py.File(p, 'w') as f:
            check(raises(Exception, Vocabulary.from_state, f), 'a state without vocabulary is rejected')
        if c['b']:
            v = build(c['b'])
            if c['cb']: v.compute_probs(dict((w, k) for w, k in c['cb']))
            write(p, v, 'a')
        v = build(c['a'])
        words, n, classes, mem = model(c['a'])
        if c['ca']:
            v.compute_probs(dict((w, k) for w, k in c['ca']), update_class_probs=c['ua'])
        write(p, v, 'a')
        if c['reopen']: write(p, v, 'a')
        with h5py.File(p, 'r') as f:
            r = Vocabulary.from_state(f)
        for i in range(n): mem[i] = float(v.get_word_prob(i))
        same_voc(r, words, n, classes, mem)
        check(r.has_unigram_probs() == v.has_unigram_probs(), 'presence of unigram probabilities', got=r.has_unigram_probs(), want=v.has_unigram_probs())
        check(r.num_normal_classes == v.num_normal_classes, 'number of normal classes')
        if v.has_unigram_probs():
            with numpy.errstate(all='ignore'):
                for x, y in ((v.get_oos_probs(), r.get_oos_probs()), (v.get_class_probs(), r.get_class_probs())):
                    check(numpy.allclose(x, y, equal_nan=True), 'unigram statistics', got=y.tolist(), want=x.tolist())
            x, y = getattr(v, '_unigram_probs', None), getattr(r, '_unigram_probs', None)
            if x is not None and y is not None: check(numpy.allclose(x, y), 'unigram probabilities')
    finally:
        import shutil
        shutil.rmtree(d)


R = Runner('random vocabularies (all formats, out-of-shortlist words, multi-word classes), with and without unigram probabilities, saved to a fresh state or over another vocabulary of the same size')
R.kind('roundtrip', gen, run, n=500)
if __name__ == '__main__': R.main()
