from decoderlib import *


def gen(rng, base=[None, 0]):
    if base[1] == 0:
        c = gen_base(rng)
        c['opts'] = gen_opts(rng, c['counts'])
        base[:] = [c, 12]
    base[1] -= 1
    c = dict(base[0])
    c['lat'] = gen_lattice(rng, c, one_final=rng.random() < .8)
    r = rng.random()
    if r < .08: c['lat']['finals'] = []
    elif r < .2: c['lat']['finals'] = sorted(rng.sample(range(c['lat']['n']), min(2, c['lat']['n'])))
    elif r < .25: c['lat']['final'] = c['lat']['initial']
    return c


def run(c):
    W, o, lat = Words(c), c['opts'], c['lat']
    if c['opts']['use_shortlist'] and W.oos is not None and any(x != x for x in W.oos.values()): raise Skip()
    try:
        want = [score(W, o, lat, p) for p in paths(lat)]
    except (OverflowError, ValueError):
        raise Skip()
    d = decoder(c)
    from theanolm.backend import InputError
    if not want:
        check(raises(InputError, d.decode, build_lat(lat)), 'a lattice without a path to a final node is an error')
        return
    if any(x[4] != x[4] for x in want): raise Skip()
    with numpy.errstate(all='ignore'):
        got, recomb = d.decode(build_lat(lat))
    res = [(tuple(t.history), float(t.ac_logprob), float(t.lat_lm_logprob), float(t.nn_lm_logprob), float(t.total_logprob)) for t in got]
    check(all(a[4] >= b[4] for a, b in zip(res, res[1:])), 'sorted by total log probability', got=[r[4] for r in res])
    hs = [r[0] for r in res]
    check(len(set(hs)) == len(hs), 'one hypothesis for a word sequence', got=hs)
    check(set(hs) == set(w[0] for w in want), 'exactly the word sequences of the paths', got=sorted(map(str, hs)), want=sorted(set(str(w[0]) for w in want)))
    for h, ac, lm, nn, tot in res:
        cand = [w for w in want if w[0] == h]
        hit = [w for w in cand if close(w[1], ac) and close(w[2], lm) and close(w[3], nn) and close(w[4], tot)]
        check(hit, 'scores of a path with these words', history=str(h), got=(ac, lm, nn, tot), want=cand[:4])
        if not o['linear_interpolation']:
            best = max(w[4] for w in cand)
            check(close(best, tot), 'the best path with these words', history=str(h), got=tot, want=best)
    for t in got:
        ws = t.history_words(W.v)
        check(list(ws) == [W.words[x] if not isinstance(x, str) else x for x in t.history], 'words of the history')


def gen_tok(rng):
    f = lambda: rng.choice([round(rng.uniform(-30, 0), 2), 0.0, -1000.0, NEG, -700.0])
    return {'ac': round(rng.uniform(-30, 0), 2), 'lm': str(f()), 'nn': str(f()), 'w': rng.choice([0.0, 1.0, .5, .3]), 'scale': rng.choice([1.0, 0.0, 12.0]), 'wi': rng.choice([0.0, -2.0]),
            'h': rng.randint(1, 5), 'lin': rng.random() < .5}


def run_tok(c):
    """total score of a hypothesis"""
    T = LatticeDecoder.Token
    lm, nn = float(c['lm']), float(c['nn'])
    if c['scale'] == 0 and NEG in (lm, nn): raise Skip()
    if c['lin'] and ((c['w'] in (0.0,) and lm == NEG) or (c['w'] == 1.0 and nn == NEG) or (lm == nn == NEG)): raise Skip()
    t = T(history=tuple(range(c['h'])), state=None, ac_logprob=c['ac'], lat_lm_logprob=lm, nn_lm_logprob=nn)
    u = T.copy(t)
    t.recompute_total(c['w'], c['scale'], c['wi'], c['lin'])
    o = dict(DEFAULT, nnlm_weight=c['w'], lm_scale=c['scale'], wi_penalty=c['wi'], linear_interpolation=c['lin'])
    want = total(o, {}, c['ac'], lm, nn, c['h'] - 1)
    check(close(float(t.total_logprob), want), 'total of acoustic, interpolated language model and word insertion scores', got=float(t.total_logprob), want=want)
    check(close(float(t.graph_logprob), want - c['ac'], 1e-3) or abs(want) == float('inf'), 'graph score')
    check((u.history, u.state, u.ac_logprob, u.lat_lm_logprob, u.nn_lm_logprob) == (t.history, t.state, t.ac_logprob, t.lat_lm_logprob, t.nn_lm_logprob), 'a copy has the same scores')


R = Runner('Real LatticeDecoder with a small deterministic network: every path of small random lattices is enumerated and scored from the vocabulary file and the network probabilities; compared with the hypotheses that decoding without pruning returns.')
R.kind('decode', gen, run, weight=4)
R.kind('token', gen_tok, run_tok, weight=1, n=300)
if __name__ == '__main__': R.main()
