from common import *
import io
import numpy
import theano
import math
from voclib import gen_voc, build, model
from netlib import FakeNetwork
from theanolm.scoring.textscorer import TextScorer
from theanolm.backend import NumberError

_cache = {}
NEG = float('-inf')


def scorer(c):
    k = json.dumps([c['voc'], c['counts'], c['sl'], c['ex'], c['net']], sort_keys=True)
    if k not in _cache:
        if len(_cache) > 4: _cache.clear()
        v = build(c['voc'])
        if c['counts'] is not None: v.compute_probs(dict((w, n) for w, n in c['counts']), update_class_probs=False)
        oos = None
        if c['net'] % 2 and c['counts'] is not None:
            with numpy.errstate(all='ignore'):
                oos = numpy.log(v.get_oos_probs()).astype(theano.config.floatX)
        net = FakeNetwork(v, c['net'], None if oos is None else theano.shared(oos, 'oos'))
        _cache[k] = (v, net, TextScorer(net, use_shortlist=c['sl'], exclude_unk=c['ex']), oos)
    return _cache[k]


base = [None, 0]


def gen(rng):
    if base[1] == 0:
        voc = gen_voc(rng, 7)
        words = model(voc)[0]
        counts = None
        if rng.random() < .75: counts = [[w, rng.randint(1, 20)] for w in words]
        base[0] = {'voc': voc, 'counts': counts, 'sl': rng.random() < .6, 'ex': rng.random() < .5, 'net': rng.randint(0, 9)}
        base[1] = 40
    base[1] -= 1
    c = dict(base[0])
    words = model(c['voc'])[0] + ['<unk>', 'zzz', '<unk>']
    c['sents'] = [[rng.choice(words) for _ in range(rng.choice([1, 2, 3, 5, 8]))] for _ in range(rng.randint(1, 4))]
    c['factor'] = rng.choice([1.0] * 12 + [0.0, 400.0, float('nan')])
    c['factor'] = str(c['factor'])
    return c


def expected(c, v, net, oos, words_of):
    """scores of the words after the first (None: missing) and their membership probabilities"""
    ids, n, classes, mem = model(c['voc'])
    pos = {w: i for i, w in enumerate(ids)}
    unk = pos['<unk>']
    cls = {}
    for k, cl in enumerate(classes):
        for i in cl: cls[i] = k
    seq = [pos.get(w, unk) for w in words_of]
    inp = [w if w < n else unk for w in seq]
    out, mems = [], []
    for t in range(1, len(seq)):
        w = seq[t]
        short = w if w < n else unk
        p = float(net.probs(inp[:t], [cls[i] for i in inp[:t]])[cls[short]])
        m = mem[short]
        with numpy.errstate(all='ignore'):
            lp = float(numpy.log(p)) + float(numpy.log(m))
        missing = False
        if c['sl'] and oos is not None:
            lp += float(oos[w])
            missing = w == unk
        elif c['ex']:
            missing = w == unk or w >= n
        out.append(None if missing else lp)
        mems.append(m)
    return seq, out, mems


def matrices(v, seqs):
    T = max(len(s) for s in seqs)
    w = numpy.zeros((T, len(seqs)), 'int64')
    m = numpy.zeros((T, len(seqs)), 'int8')
    for i, s in enumerate(seqs):
        w[:len(s), i] = s
        m[:len(s), i] = 1
    return w, m


def run(c):
    v, net, sc, oos = scorer(c)
    f = float(c['factor'])
    net.factor.set_value(numpy.asarray(f, theano.config.floatX))
    exp = [expected(c, v, net, oos, s) for s in c['sents']]
    w, m = matrices(v, [e[0] for e in exp])
    cl, mp = v.get_class_memberships(w)
    w0, cl0, mp0, m0 = w.copy(), cl.copy(), mp.copy(), m.copy()
    with numpy.errstate(all='ignore'):
        got = sc.score_batch(w, cl, mp, m)
    check((w == w0).all() and (cl == cl0).all() and (mp == mp0).all() and (m == m0).all(), 'the arguments are not changed')
    check(len(got) == len(exp), 'one list per sequence', got=len(got))
    for g, (seq, e, mems) in zip(got, exp):
        check(len(g) == len(e), 'one score per word after the first', got=len(g), want=len(e))
        for a, b in zip(g, e):
            check((a is None) == (b is None), 'excluded words are missing, others are not', got=str(g), want=str(e))
            check(a is None or close(float(a), b), 'score of a word', got=str(g), want=str(e))
    lps = [x for _, e, ms in exp for x, y in zip(e, ms) if x is not None and y > 0]
    batches = [(w, None, m)] if len(c['sents']) < 3 else []
    if not batches:
        for part in (exp[:1], exp[1:]):
            pw, pm = matrices(v, [e[0] for e in part])
            batches.append((pw, None, pm))
    bl = [[x for _, e, ms in part for x, y in zip(e, ms) if x is not None and y > 0] for part in ([exp] if len(c['sents']) < 3 else [exp[:1], exp[1:]])]
    bad = any(sum(x) != sum(x) or sum(x) == NEG or sum(x) > 0 for x in bl)
    if any(abs(sum(x)) < 1e-9 and x for x in bl): raise Skip()
    with numpy.errstate(all='ignore'):
        if bad: check(raises(NumberError, sc.compute_perplexity, batches), 'a total that is not a number, minus infinity or positive is an error', total=str([sum(x) for x in bl]))
        elif not lps: check(raises(ValueError, sc.compute_perplexity, batches), 'no words to predict is an error')
        else:
            pp = float(sc.compute_perplexity(batches))
            check(close(pp, math.exp(-sum(lps) / len(lps)), 1e-3), 'perplexity', got=pp, want=math.exp(-sum(lps) / len(lps)))
        for (seq, e, ms), words in zip(exp, c['sents']):
            x = [a for a, b in zip(e, ms) if a is not None and b > 0]
            if x and abs(sum(x)) < 1e-9: continue
            a = numpy.asarray(seq, dtype='int64')
            k, p = v.get_class_memberships(a[:, None])
            args = (a, [int(q) for q in k[:, 0]], [float(q) for q in p[:, 0]])
            if sum(x) != sum(x) or sum(x) == NEG or sum(x) > 0:
                check(raises(NumberError, sc.score_sequence, *args), 'an invalid sentence score is an error', want=str(sum(x)))
            else:
                g = float(sc.score_sequence(*args))
                check(close(g, sum(x)), 'log probability of a sentence', got=g, want=sum(x))


def gen_line(rng):
    c = gen(rng)
    c['factor'] = '1.0'
    c['words'] = [w for w in c['sents'][0] if True]
    c['frame'] = [rng.random() < .3, rng.random() < .3]
    c['empty'] = rng.random() < .1
    return c


def run_line(c):
    v, net, sc, oos = scorer(c)
    net.factor.set_value(numpy.asarray(1.0, theano.config.floatX))
    ws = [w for w in c['words'] if w not in ('<s>', '</s>')]
    if c['empty'] or not ws:
        check(sc.score_line(' \n', v) is None, 'no score for an empty line')
        return
    line = ' '.join((['<s>'] if c['frame'][0] else []) + ws + (['</s>'] if c['frame'][1] else []))
    seq, e, ms = expected(c, v, net, oos, ['<s>'] + ws + ['</s>'])
    x = [a for a, b in zip(e, ms) if a is not None and b > 0]
    unk = v.word_to_id['<unk>']
    n0, u0 = sc.num_words, sc.num_unks
    if sum(x) == NEG or abs(sum(x)) < 1e-9: raise Skip()
    with numpy.errstate(all='ignore'):
        g = float(sc.score_line(line + '\n', v))
    check(close(g, sum(x)), 'log probability of a line', got=g, want=sum(x), line=line)
    check(sc.num_words - n0 == len(seq) and sc.num_unks - u0 == sum(w == unk for w in seq), 'counts of words and unknown words', got=[sc.num_words - n0, sc.num_unks - u0])


R = Runner('random vocabularies (classes, out-of-shortlist words), a small network of Theano operations, random batches with padding, invalid probabilities; oracle recomputes every score in numpy')
R.kind('batch', gen, run, n=600)
R.kind('line', gen_line, run_line, n=600)
if __name__ == '__main__': R.main()
