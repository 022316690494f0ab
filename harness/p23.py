from common import *
import numpy
from theanolm.network import RecurrentState
from theanolm.network.basiclayer import BasicLayer
from theanolm.network import weightfunctions as wf
import theanolm.network.basiclayer as bl


def gen(rng):
    sizes = [rng.randint(1, 4) for _ in range(rng.randint(0, 5))]
    if rng.random() < .4: sizes = [2] * len(sizes)
    return {'sizes': sizes, 'ns': [rng.randint(1, 3) if rng.random() < .4 else 1 for _ in range(rng.randint(0, 5))],
            'seed': rng.randint(0, 10 ** 6)}


def run_combine(c):
    r = numpy.random.RandomState(c['seed'])
    vals = [[r.rand(1, n, s) for s in c['sizes']] for n in c['ns']]
    states = []
    for n, v in zip(c['ns'], vals):
        if c['seed'] % 2:
            s = RecurrentState(c['sizes'], n, [x.copy() for x in v])
        else:
            s = RecurrentState(c['sizes'], n)
            s.set([x.copy() for x in v])
        states.append(s)
    if not states:
        check(raises(ValueError, RecurrentState.combine_sequences, states), 'combining nothing is rejected')
        return
    res = RecurrentState.combine_sequences(states)
    check(list(res.sizes) == c['sizes'] and res.num_sequences == sum(c['ns']), 'sizes of the combination')
    got = res.get()
    check(len(got) == len(c['sizes']), 'number of state variables')
    for v in range(len(c['sizes'])):
        col = 0
        check(got[v].shape == (1, sum(c['ns']), c['sizes'][v]), 'shape', got=list(got[v].shape))
        check(got[v] is res.get(v) or numpy.array_equal(got[v], res.get(v)), 'get(index)')
        for i, n in enumerate(c['ns']):
            for j in range(n):
                check(numpy.array_equal(got[v][0, col], vals[i][v][0, j]), 'column of sequence %d' % i, layer=v)
                col += 1
    for s, v, n in zip(states, vals, c['ns']):
        check(s.num_sequences == n and all(numpy.array_equal(a, b) for a, b in zip(s.get(), v)), 'inputs unchanged')


def gen_set(rng):
    sizes = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
    n = rng.randint(1, 4)
    shapes = [[1, n, s] for s in sizes]
    r = rng.random()
    if r < .7:
        i = rng.randrange(len(shapes))
        d = rng.randrange(3)
        shapes[i][d] = rng.choice([x for x in range(1, 6) if x != shapes[i][d]])
    elif r < .8: shapes.append([1, n, 2])
    elif r < .9: shapes.pop()
    return {'sizes': sizes, 'n': n, 'shapes': shapes}


def run_set(c):
    s = RecurrentState(c['sizes'], c['n'])
    check(len(s.get()) == len(c['sizes']) and all(x.shape == (1, c['n'], z) and not x.any() for x, z in zip(s.get(), c['sizes'])),
          'a fresh state is zero with one column per sequence')
    new = [numpy.full(x, 1.0 + i) for i, x in enumerate(c['shapes'])]
    ok = [tuple(x) for x in c['shapes']] == [(1, c['n'], z) for z in c['sizes']]
    for how in ('set', 'init'):
        try:
            if how == 'set': s.set(new)
            else: s = RecurrentState(c['sizes'], c['n'], new)
            acc = True
        except ValueError:
            acc = False
        check(acc == ok, 'set accepts exactly the declared shapes', how=how, accepted=acc)
        if ok: check(all(numpy.array_equal(a, b) for a, b in zip(s.get(), new)), 'state is set')
    if ok:
        s.reset()
        check(all(not x.any() for x in s.get()), 'reset')


class Params:
    """Records what the layer stores, and for which device."""
    d = []
    def __init__(self): self.total_size = 0
    def add(self, path, value, device=None): Params.d.append((path, value, device))


bl.Parameters = Params


class L(BasicLayer):
    def create_structure(self): pass


def run_split(c):
    devs = ['dev%d' % i for i in range(c['n'])]
    o = L({'name': 'l', 'input_layers': [], 'devices': devs, 'size': 1}, None)
    if c['n'] < 1 or c['size'] < c['n']:
        check(raises((RuntimeError, ValueError), o._split_per_device, c['size']), 'impossible split is rejected')
        return
    rs = [list(x) for x in o._split_per_device(c['size'])]
    check(len(rs) == c['n'] and sum(rs, []) == list(range(c['size'])), 'consecutive columns cover the matrix', got=rs)
    check(max(map(len, rs)) - min(map(len, rs)) <= 1, 'balanced')
    Params.d = []
    numpy.random.seed(c['seed'])
    o._init_weight('W', (3, c['size']), count=1)
    numpy.random.seed(c['seed'])
    full = wf.random_matrix((3, c['size']), None, 1)
    check([d for _, _, d in Params.d] == devs and [p for p, _, _ in Params.d] == ['layers/l/W/' + d for d in devs], 'one part per device')
    check(numpy.array_equal(numpy.concatenate([v for _, v, _ in Params.d], axis=1), full), 'weight parts join to the matrix')
    Params.d = []
    val = numpy.arange(c['size']).astype('float64')
    o._init_bias('b', c['size'], val)
    check(numpy.array_equal(numpy.concatenate([v for _, v, _ in Params.d]), val), 'bias parts join to the vector')
    check([d for _, _, d in Params.d] == devs, 'one bias part per device')


R = Runner('states of up to 3 layers, 5 objects and 3 sequences each; all shapes; splits of up to 40 columns to up to 8 devices')
R.kind('combine', gen, run_combine, n=3000, fixed=[{'sizes': [2], 'ns': [], 'seed': 1}])
R.kind('set', gen_set, run_set, n=3000)
R.kind('split', lambda r: {'n': r.randint(0, 8), 'size': r.randint(1, 40), 'seed': r.randint(0, 999)}, run_split, n=3000)
if __name__ == '__main__': R.main()
