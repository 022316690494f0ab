from common import *
import numpy
from voclib import *


def gen(rng):
    c = gen_voc(rng)
    words = model(c)[0]
    hi = rng.choice([0, 1, 5, 1000, 10 ** 7])
    counts = [[w, rng.randint(0, hi)] for w in words + ['zz', 'yy'] if rng.random() < .8]
    rng.shuffle(counts)
    return {'voc': c, 'counts': counts, 'upd': rng.random() < .5}


def run(c):
    v = build(c['voc'])
    words, n, classes, mem = model(c['voc'])
    check(not v.has_unigram_probs(), 'no unigram probabilities before counting')
    for f in (v.get_oos_probs, v.get_class_probs):
        try:
            f()
        except Exception:
            continue
        raise Violation('a request without unigram probabilities is not refused', f=f.__name__)
    d = dict((w, k) for w, k in c['counts'])
    v.compute_probs(dict(d), update_class_probs=c['upd'])
    check(v.has_unigram_probs(), 'unigram probabilities are there')
    tot = sum(d.get(w, 0) for w in words)
    uni = [d.get(w, 0) / tot if tot else 0.0 for w in words]
    with numpy.errstate(all='ignore'):
        oos = [float(x) for x in v.get_oos_probs()]
        cp = [float(x) for x in v.get_class_probs()]
        cp2 = [float(x) for x in v.get_class_probs()]
        oos2 = [float(x) for x in v.get_oos_probs()]
    check(len(oos) == len(words) and all(x == 1.0 for x in oos[:n]), 'shortlist words have out-of-shortlist probability one', got=oos)
    t = sum(uni[n:])
    if t > 0:
        want = [x / t for x in uni[n:]]
        check(all(close(a, b, 1e-5) for a, b in zip(oos[n:], want)), 'out-of-shortlist distribution', got=oos[n:], want=want)
        check(close(sum(oos[n:]), 1.0, 1e-5), 'out-of-shortlist distribution sums to one')
    check(cp == cp2 and (oos == oos2 or t == 0), 'requests do not change the statistics')
    cs = [sum(uni[i] for i in cl) for cl in classes]
    st = sum(cs)
    want = [x / st if st else 0.0 for x in cs]
    check(len(cp) == len(classes) and all(close(a, b, 1e-5) for a, b in zip(cp, want)), 'class probabilities', got=cp, want=want)
    if st: check(close(sum(cp), 1.0, 1e-5), 'class probabilities sum to one')
    up = getattr(v, '_unigram_probs', None)
    if up is not None:
        check(all(close(float(a), b, 1e-5) for a, b in zip(up, uni)) and len(up) == len(uni), 'unigram probabilities', got=[float(x) for x in up], want=uni)


R = Runner('random vocabularies of all three formats with out-of-shortlist words and random count tables')
R.kind('probs', gen, run, n=3000)
if __name__ == '__main__': R.main()
