from common import *
import math
import numpy
from theanolm.backend import interpolate_linear, interpolate_loglinear
from theanolm.scoring.latticedecoder import LatticeDecoder
Token = LatticeDecoder.Token
INF = float('inf')


def num(x): return -INF if x == '-inf' else x


def glp(rng):
    r = rng.random()
    if r < .08: return '-inf'
    if r < .25: return -round(rng.uniform(735, 750), 2)
    if r < .4: return -round(rng.uniform(750, 5000), 2)
    if r < .5: return 0.0
    return -round(rng.uniform(0, 60), 3)


def gw(rng): return rng.choice([0.0, 1.0, 0.5, 0.25, 0.9, 1e-3, 1e-9, round(rng.random(), 4)])


def linear(a, b, w):
    t = []
    if w != 0 and a != -INF: t.append((w, a))
    if 1 - w != 0 and b != -INF: t.append((1 - w, b))
    if not t: return -INF
    m = max(x for _, x in t)
    return m + math.log(sum(c * math.exp(x - m) for c, x in t))


def loglinear(a, b, w, v):
    r = 0.0
    if w != 0: r += w * a
    if v != 0: r += v * b
    return r


def run_interp(c):
    a, b, w = num(c['a']), num(c['b']), c['w']
    got = float(interpolate_linear(a, b, w))
    check(close(got, linear(a, b, w), 1e-6), 'linear interpolation', got=got, want=linear(a, b, w))
    got = float(interpolate_loglinear(a, b, w, c['v']))
    check(close(got, loglinear(a, b, w, c['v']), 1e-6), 'log-linear interpolation', got=got)


def run_token(c):
    hist = tuple(c['hist'])
    state = object()
    t = Token(hist, state, c['ac'], num(c['lat']), num(c['nn']))
    before = (t.history, t.state, t.ac_logprob, t.lat_lm_logprob, t.nn_lm_logprob)
    if c['first']:
        t.recompute_hash(c['order'])
        t.recompute_total(.5, 1.0, 0.0, False)
    pre = (t.recombination_hash, t.total_logprob, t.graph_logprob)
    u = Token.copy(t)
    check(u is not t and u.history == hist and u.state is state and
          (u.ac_logprob, u.lat_lm_logprob, u.nn_lm_logprob) == before[2:], 'copy preserves the components')
    u.recompute_hash(c['order'])
    u.recompute_total(c['w'], c['scale'], c['wip'], c['linear'])
    a, b, w = num(c['nn']), num(c['lat']), c['w']
    lm = linear(a, b, w) if c['linear'] else loglinear(a, b, w, 1.0 - w)
    want = c['ac'] + lm * c['scale'] + c['wip'] * (len(hist) - 1)
    check(close(float(u.total_logprob), want, 1e-6), 'total log probability', got=float(u.total_logprob), want=want)
    check(close(float(u.graph_logprob), want - c['ac'] if lm != -INF else -INF, 1e-4), 'graph log probability', got=float(u.graph_logprob))
    check((u.history, u.state, u.ac_logprob, u.lat_lm_logprob, u.nn_lm_logprob) == before, 'components unchanged by scoring')
    # changing the copy leaves the original alone
    u.history = u.history + (7,)
    u.ac_logprob += 1.0
    u.lat_lm_logprob += 2.0
    u.nn_lm_logprob += 3.0
    check((t.history, t.state, t.ac_logprob, t.lat_lm_logprob, t.nn_lm_logprob) == before and
          (t.recombination_hash, t.total_logprob, t.graph_logprob) == pre, 'original unchanged')
    d = Token()
    check(tuple(d.history) == () and d.ac_logprob == 0 and d.lat_lm_logprob == 0 and d.nn_lm_logprob == 0, 'default token')


def gen_token(rng):
    return {'hist': [0] + [rng.choice([1, 2, 3, 'oov']) for _ in range(rng.randint(0, 6))], 'ac': -round(rng.uniform(0, 500), 2),
            'lat': glp(rng), 'nn': glp(rng), 'w': gw(rng), 'scale': rng.choice([1.0, 2.5, 13.0]),
            'wip': rng.choice([0.0, -.5, 3.0]), 'linear': rng.random() < .5, 'order': rng.choice([None, 1, 2, 5]), 'first': rng.random() < .3}


R = Runner('random finite and infinite log probabilities around the underflow limit, weights with the end points, histories of up to 7 words')
R.kind('interpolation', lambda r: {'a': glp(r), 'b': glp(r), 'w': gw(r), 'v': gw(r)}, run_interp, n=20000,
       fixed=[{'a': -744.5, 'b': -744.5, 'w': .5, 'v': .5}])
R.kind('token', gen_token, run_token, n=20000)
if __name__ == '__main__': R.main()
