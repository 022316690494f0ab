from decoderlib import *
from theanolm.scoring.lattice import Lattice

VOC = {'fmt': 'words', 'words': ['<s>', '</s>', '<unk>', 'a', 'b'], 'cls': [0, 1, 2, 3, 4], 'probs': [1.0] * 5, 'oos': None, 'blank': False, 'nl': True, 'indent': False}
f2 = lambda rng: rng.choice([round(rng.uniform(-30, 0), 1), float(rng.randint(-6, 0)), float(rng.randint(-3, 0))])


def gen(rng):
    """Tokens at the nodes of a chain."""
    n = rng.randint(1, 5)
    order = rng.choice([None, None, 1, 2, 3])
    histories = [[0] + [rng.choice([3, 4, 2, 'x']) for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(1, 6))]
    toks = [[rng.choice(histories), f2(rng), f2(rng), f2(rng)] for _ in range(rng.choice([1, 2, 3, 6, rng.randint(1, 20)]))]
    if rng.random() < .1: toks[rng.randrange(len(toks))][3] = 'inf'
    times = [None] * n
    k = rng.choice(['none', 'all', 'some', 'random'])
    for i in range(n):
        if k == 'all' or (k == 'some' and rng.random() < .5): times[i] = float(i // 2)
        if k == 'random': times[i] = float(rng.randint(0, 3))
    return {'n': n, 'order': order, 'toks': toks, 'times': times, 'at': rng.randrange(n), 'best': [rng.choice([None, f2(rng) + f2(rng)]) for _ in range(n)],
            'beam': rng.choice([None, None, 0.0, 3.0, 5.0, 20.0]), 'max': rng.choice([None, None, 1, 2, 3, 30]), 'extra': rng.choice([None, None, None, 1, 2]),
            'absb': rng.choice([None, 0, 4]), 'absm': rng.choice([None, 0, 2])}


def make(c):
    o = {'beam': c['beam'], 'max_tokens_per_node': c['max'], 'recombination_order': c['order']}
    for k, n in (('extra', 'prune_extra_limit'), ('absb', 'abs_min_beam'), ('absm', 'abs_min_max_tokens')):
        if c[k] is not None: o[n] = c[k]
    return decoder({'voc': VOC, 'counts': None, 'net': 1, 'opts': o})


def suffix(h, order):
    """the last words given by the order"""
    return tuple(h) if order is None else tuple(h[max(0, len(h) - order):])


def recombined(toks, order):
    """(kept tokens best first, dropped tokens with the kept one), by the definition: the best of each group"""
    groups = {}
    for t in toks: groups.setdefault(suffix(t.history, order), []).append(t)
    return groups


def check_recomb(toks, kept, dropped, order):
    groups = recombined(toks, order)
    check(len(kept) == len(groups), 'one token for each group', got=len(kept), want=len(groups))
    best = {}
    for t in kept:
        k = suffix(t.history, order)
        check(k not in best and k in groups, 'one token for each group')
        check(any(t is x for x in groups[k]), 'a kept token is one of the tokens')
        check(float(t.total_logprob) == max(float(x.total_logprob) for x in groups[k]), 'the kept token is the best', got=float(t.total_logprob))
        best[k] = t
    check(all(a.total_logprob >= b.total_logprob for a, b in zip(kept, kept[1:])), 'sorted best first')
    rest = [t for t in toks if not any(t is x for x in kept)]
    check(len(dropped) == len(rest) and all(sum(t is d[0] for d in dropped) == 1 for t in rest), 'every other token is reported once', got=len(dropped), want=len(rest))
    for t, h, nn in dropped:
        b = best[suffix(t.history, order)]
        check(tuple(h) == tuple(b.history) and float(nn) == float(b.nn_lm_logprob), 'reported with the history and neural network score of the kept token', got=str(h))


def run(c):
    d = make(c)
    toks = []
    for h, ac, lm, nn in c['toks']:
        t = d.Token(history=tuple(h), state=None, ac_logprob=ac, lat_lm_logprob=lm, nn_lm_logprob=-float('inf') if nn == 'inf' else nn)
        t.recompute_hash(c['order'])
        t.recompute_total(.5, 1.0, 0.0)
        toks.append(t)
    r = []
    before = list(toks)
    kept = d._sorted_recombined_tokens(toks, r)
    check([id(t) for t in toks] == [id(t) for t in before], 'the list of tokens is unchanged')
    check_recomb(toks, kept, r, c['order'])
    # pruning of a node
    nodes = [Lattice.Node(i) for i in range(c['n'])]
    for nd, t, b in zip(nodes, c['times'], c['best']): nd.time, nd.best_logprob = t, b
    at = c['at']
    own = max(float(t.total_logprob) for t in toks)
    if nodes[at].best_logprob is None or nodes[at].best_logprob < own: nodes[at].best_logprob = own
    lists = [['other%d' % i] for i in range(c['n'])]
    lists[at] = list(toks)
    marker = ('earlier', (), 0.0)
    rec = [marker]
    d._prune(nodes[at], nodes, lists, rec)
    check(rec[0] is marker, 'earlier recombined tokens are kept')
    check(all(lists[i] == ['other%d' % i] for i in range(c['n']) if i != at), 'the tokens of other nodes are unchanged')
    left = lists[at]
    best = [t for t in kept]
    check(len(rec) - 1 == len(r) and all(any(x[0] is y[0] for y in rec[1:]) for x in r), 'recombination reports the same tokens')
    check(len(left) >= 1 and float(left[0].total_logprob) == own, 'the best token is never dropped', got=[float(t.total_logprob) for t in left], want=own)
    check(all(a.total_logprob >= b.total_logprob for a, b in zip(left, left[1:])), 'the remaining tokens are sorted best first')
    divider = 1 if c['extra'] is None else max(1, c['n'] // c['extra'] + 1)
    absb, absm = (c['absb'] or 0, c['absm'] or 0) if c['extra'] is not None else (0, 0)
    limit = None if c['max'] is None else max(c['max'] // divider, absm, 1)
    start = at
    if c['times'][at] is not None: start = next(i for i in range(c['n']) if c['times'][i] is not None and c['times'][i] >= c['times'][at])
    want = kept
    if c['beam'] is not None:
        thr = max(nd.best_logprob for nd in nodes[start:] if nd.best_logprob is not None) - max(c['beam'] / divider, absb)
        want = [t for i, t in enumerate(kept) if i == 0 or float(t.total_logprob) > thr]
    if limit is not None: want = want[:limit]
    check([float(t.total_logprob) for t in left] == [float(t.total_logprob) for t in want], 'beam pruning and token limit remove exactly what they may', got=[float(t.total_logprob) for t in left], want=[float(t.total_logprob) for t in want])


def gen_dec(rng, base=[None, 0]):
    if base[1] == 0:
        c = gen_base(rng)
        c['opts'] = gen_opts(rng, c['counts'])
        c['opts']['linear_interpolation'] = False
        k = rng.choice(['order', 'order', 'beam', 'max', 'huge'])
        if k == 'order': c['opts']['recombination_order'] = rng.choice([1, 2, 3, 50])
        if k in ('beam', 'max'): c['opts']['recombination_order'] = rng.choice([None, None, 2])
        if k == 'beam': c['opts']['beam'] = rng.choice([1.0, 10.0, 30.0, 0.0])
        if k == 'max': c['opts']['max_tokens_per_node'] = rng.choice([1, 2, 5])
        if k == 'huge': c['opts'].update(beam=1e6, max_tokens_per_node=10 ** 6)
        base[:] = [c, 12]
    base[1] -= 1
    c = dict(base[0])
    c['lat'] = gen_lattice(rng, c)
    return c


def run_dec(c):
    """decoding with pruning returns paths; the best one without beam and limit; recombined tokens belong to kept ones"""
    W, o, lat = Words(c), c['opts'], c['lat']
    if o['use_shortlist'] and W.oos is not None and any(x != x for x in W.oos.values()): raise Skip()
    want = [score(W, o, lat, p) for p in paths(lat)]
    if not want or any(x[4] != x[4] for x in want): raise Skip()
    d = decoder(c)
    with numpy.errstate(all='ignore'):
        got, recomb = d.decode(build_lat(lat))
    k = o['recombination_order']
    res = [(tuple(t.history), float(t.ac_logprob), float(t.lat_lm_logprob), float(t.nn_lm_logprob), float(t.total_logprob)) for t in got]
    check(res, 'a hypothesis remains')
    check(all(a[4] >= b[4] for a, b in zip(res, res[1:])), 'sorted by total log probability')
    check(len(set(suffix(r[0], k) for r in res)) == len(res), 'recombined by the last words')
    for r in res:
        check(any(w[0] == r[0] and close(w[1], r[1]) and close(w[2], r[2]) and close(w[3], r[3]) and close(w[4], r[4]) for w in want), 'a hypothesis is a path with its scores', got=str(r))
    for t, h, nn in recomb:
        check(suffix(t.history, k) == suffix(h, k), 'a recombined token agrees with the kept one on the last words', got=str(t.history), kept=str(h))
    if o['beam'] in (None, 1e6) and o['max_tokens_per_node'] in (None, 10 ** 6):
        full = {suffix(w[0], k) for w in want}
        check({suffix(r[0], k) for r in res} == full, 'nothing is dropped but by recombination', got=len(res), want=len(full))
        if k is None or k >= 50: check(close(res[0][4], max(w[4] for w in want)), 'the best path is found', got=res[0][4])


R = Runner('Real Token lists with random histories, scores, beams, limits and node times; what _sorted_recombined_tokens and _prune keep, drop and report is compared with the definition. Decoding of random lattices with recombination, beam or limit is compared with the enumeration of all paths.')
R.kind('prune', gen, run, weight=2)
R.kind('decode', gen_dec, run_dec, weight=2)
if __name__ == '__main__': R.main()
