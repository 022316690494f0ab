from common import *
import io
import logging
import numpy
import theano
import h5py
logging.disable(logging.CRITICAL)
from theanolm.network import Architecture, Network
from theanolm.backend.parameters import Parameters
from theanolm.backend import IncompatibleStateError
from voclib import build as build_voc

_n = [0]


def h5():
    _n[0] += 1
    return h5py.File('p21-%d-%d' % (os.getpid(), _n[0]), mode='w', driver='core', backing_store=False)


NAMES = ['type', 'name', 'size', 'dropout_rate', 'activation', 'weight', 'ä', 'x.y']


def gen_desc(rng, big):
    ni = rng.choice([1, 2, 3, rng.randint(1, 14)]) if big else rng.randint(1, 2)
    nl = rng.choice([1, 2, 3, rng.randint(1, 14)]) if big else rng.randint(1, 3)
    val = lambda: rng.choice(['word', 'class', 'a b', '', 'tanh', 'ä', '10', 'x' * rng.randint(1, 9)])
    ins = []
    for i in range(ni):
        d = {'type': val(), 'name': 'in%d' % i}
        for k in rng.sample(NAMES, rng.randint(0, 3)): d[k] = val()
        ins.append(d)
    lays = []
    for i in range(nl):
        d = {'inputs': [rng.choice(['in0', 'l%d' % rng.randint(0, 30), val()]) for _ in range(rng.choice([1, 2, rng.randint(1, 14)]))],
             'devices': [val() for _ in range(rng.choice([0, 0, 1, rng.randint(0, 12)]))], 'type': val(), 'name': 'l%d' % i}
        if rng.random() < .6: d['size'] = rng.randint(1, 500)
        for k in rng.sample(NAMES[3:], rng.randint(0, 2)): d[k] = val()
        lays.append(d)
    return {'inputs': ins, 'layers': lays, 'output': rng.choice([None, 'l0', val()])}


def gen(rng):
    c = gen_desc(rng, True)
    c['old'] = rng.choice([None, None, 'same'])
    c['mut'] = rng.choice(['value', 'extra', 'missing', 'list', 'longer', 'shorter', 'input', 'layer', 'noinput', 'nolayer', 'output'])
    c['pick'] = [rng.random() for _ in range(4)]
    return c


def arch(c):
    import copy
    c = copy.deepcopy(c)
    return Architecture(c['inputs'], c['layers'], c['output'])


def run(c):
    a = arch(c)
    s = h5()
    if c['old'] == 'same': arch(c).get_state(s)
    a.get_state(s)
    b = Architecture.from_state(s)
    norm = lambda ds: [{k: (list(v) if isinstance(v, (list, numpy.ndarray)) else v) for k, v in d.items()} for d in ds]
    check(norm(b.inputs) == c['inputs'], 'the same inputs in the same order', got=str(norm(b.inputs)))
    check(norm(b.layers) == c['layers'], 'the same layers in the same order, with the order of their inputs', got=str(norm(b.layers)))
    check(b.output_layer == (c['output'] if c['output'] is not None else c['layers'][-1]['name']), 'output layer', got=str(b.output_layer))
    a.check_state(s)
    b.check_state(s)
    # a different architecture is not accepted
    import copy
    m = copy.deepcopy(c)
    pick = lambda xs, i: xs[int(c['pick'][i] * len(xs))]
    d = pick(m['inputs'] + m['layers'], 0)
    opts = [k for k in d if not isinstance(d[k], list)]
    k = pick(opts, 1)
    mut = c['mut']
    if mut == 'value': d[k] = d[k] + 1 if isinstance(d[k], int) else str(d[k]) + 'z'
    elif mut == 'extra': d['new_option'] = 'v'
    elif mut == 'missing':
        if k == 'name': return
        del d[k]
    elif mut in ('list', 'longer', 'shorter'):
        d = pick(m['layers'], 0)
        l = d[pick(['inputs', 'devices'], 1)]
        if mut == 'longer': l.append('z')
        elif not l: return
        elif mut == 'shorter': l.pop()
        else: l[int(c['pick'][2] * len(l))] += 'z'
    elif mut == 'input': m['inputs'].append({'type': 'word', 'name': 'more'})
    elif mut == 'layer': m['layers'].append({'type': 'tanh', 'name': 'more', 'inputs': ['l0'], 'devices': []})
    elif mut == 'noinput':
        if len(m['inputs']) < 2: return
        m['inputs'].pop()
    elif mut == 'nolayer':
        if len(m['layers']) < 2: return
        m['layers'].pop()
    elif mut == 'output': m['output'] = str(b.output_layer) + 'z'
    if m['output'] is None: m['output'] = c['layers'][-1]['name']
    other = arch(m)
    check(raises(IncompatibleStateError, other.check_state, s), 'a different description is reported as incompatible (%s)' % mut)


def gen_par(rng):
    ps = []
    for i in range(rng.choice([1, 2, 3, rng.randint(1, 12)])):
        shape = [rng.randint(1, 4) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
        ps.append(['%s/p%d%s' % (rng.choice(['layers/a', 'optimizer', 'layers/b/c']), i, rng.choice(['', '_velocity'])), shape, rng.randint(0, 10 ** 6)])
    return {'ps': ps, 'old': rng.random() < .5, 'extra': rng.random() < .5, 'miss': rng.choice([None, None, rng.random()])}


def val(shape, seed):
    v = numpy.random.RandomState(seed).uniform(-5, 5, shape).astype(theano.config.floatX)
    if not shape: v = numpy.dtype(theano.config.floatX).type(v)
    return v


def run_par(c):
    def make(off):
        p = Parameters()
        for n, sh, seed in c['ps']: p.add(n, val(sh, seed + off))
        return p
    s = h5()
    if c['extra']: s.create_dataset('layers/unrelated', data=numpy.ones(3))
    if c['old']: make(1).get_state(s)
    p = make(0)
    p.get_state(s)
    q = make(2)
    q.set_state(s)
    for n, sh, seed in c['ps']:
        for x, who in ((p, 'saved'), (q, 'restored')):
            v = numpy.asarray(x[n].get_value())
            check(v.shape == tuple(sh) and (v == numpy.asarray(val(sh, seed))).all(), 'value of the %s parameter' % who, name=n, got=str(v), want=str(val(sh, seed)))
    if c['extra']: check((s['layers/unrelated'][:] == 1).all(), 'other contents of the state are unchanged')
    if c['miss'] is not None:
        n = c['ps'][int(c['miss'] * len(c['ps']))][0]
        del s[n]
        check(raises(IncompatibleStateError, make(3).set_state, s), 'a missing value is reported')


VOC = {'fmt': 'classes', 'words': ['<s>', '</s>', '<unk>', 'a', 'b', 'c'], 'cls': [0, 1, 2, 3, 3, 4], 'probs': [1.0] * 6, 'oos': None, 'blank': False, 'nl': True, 'indent': False}
LAYERS = ['tanh', 'lstm', 'gru', 'highwaytanh', 'blstm', 'bgru', 'dropout', 'fc', 'lstm']


def gen_net(rng):
    return {'n': rng.randint(1, 3), 'types': [rng.choice(LAYERS) for _ in range(3)], 'two': rng.random() < .5, 'out': rng.choice(['softmax', 'hsoftmax', 'softmax']),
            'opt': rng.choice(['sgd', 'adam', 'adagrad', 'adadelta', 'nesterov', 'rmsprop-sgd', 'rmsprop-nesterov']), 'seed': rng.randint(0, 99), 'lr': rng.choice([.1, 1.0, .0123])}


def describe(c):
    out = ['input type=class name=i0']
    if c['two']: out.append('input type=word name=i1')
    out.append('layer type=projection name=p0 input=i0 size=4')
    if c['two']: out.append('layer type=projection name=p1 input=i1 size=3')
    last = ['p0'] + (['p1'] if c['two'] else [])
    for i in range(c['n']):
        t = c['types'][i]
        if t == 'dropout' and len(last) > 1: t = 'tanh'
        out.append('layer type=%s name=h%d %s %s' % (t, i, ' '.join('input=' + x for x in last), 'dropout_rate=0.2' if t == 'dropout' else 'size=4'))
        last = ['h%d' % i]
    out.append('layer type=%s name=out input=%s' % (c['out'], last[0]))
    return '\n'.join(out) + '\n'


def network(c, seed):
    numpy.random.seed(seed)
    f = io.StringIO(describe(c))
    f.name = 'arch'
    return Network(Architecture.from_description(f), build_voc(VOC))


def run_net(c):
    """A whole network with the parameters of an optimizer, saved twice and restored into a fresh one."""
    a, b = network(c, c['seed']), network(c, c['seed'] + 1)
    names = sorted(a.get_variables())
    check(names == sorted(b.get_variables()) and names, 'parameter names')
    s = h5()
    b.get_state(s)
    a.get_state(s)
    b.set_state(s)
    for n in names:
        x, y = a.get_variables()[n].get_value(), b.get_variables()[n].get_value()
        check(x.shape == y.shape and (x == y).all(), 'parameter value after restoring', name=n)
    d = Architecture.from_state(s)
    e = a.architecture
    check(d.inputs == e.inputs and d.layers == e.layers and d.output_layer == e.output_layer, 'the same network description', got=str((d.inputs, d.layers)), want=str((e.inputs, e.layers)))
    for n in names[:3]:
        v = s[n][...]
        del s[n]
        check(raises(IncompatibleStateError, b.set_state, s), 'a missing parameter is reported', name=n)
        s.create_dataset(n, data=v)


class NoCost:
    """A cost that depends on every parameter; the update function is not used."""
    def __init__(self, net): self.net = net
    def get_tensor(self): return sum((v ** 2).sum() for v in self.net.params.values()), theano.tensor.constant(1)


class FakeNet:
    def __init__(self, rng):
        from collections import OrderedDict
        import theano.tensor as tensor
        f = theano.config.floatX
        self.vocabulary = build_voc(VOC)
        self.params = OrderedDict((n, theano.shared(rng.uniform(-1, 1, sh).astype(f), n)) for n, sh in (('layers/a/W', (2, 3)), ('layers/a/b', (3,))))
        self.input_word_ids = tensor.matrix(dtype='int64')
        self.input_class_ids = tensor.matrix(dtype='int64')
        self.target_word_ids = tensor.matrix(dtype='int64')
        self.target_class_ids = tensor.matrix(dtype='int64')
        self.mask = tensor.matrix(dtype='int8')
        self.is_training = tensor.scalar(dtype='int8')
        self.num_noise_samples = tensor.scalar(dtype='int64')

    def get_variables(self): return self.params


def run_opt(c):
    from theanolm.training import create_optimizer
    o = {'method': c['opt'], 'epsilon': 1e-6, 'gradient_decay_rate': .9, 'sqr_gradient_decay_rate': .9, 'learning_rate': c['lr'], 'weights': numpy.ones(1, theano.config.floatX), 'momentum': .9,
         'max_gradient_norm': 5, 'num_noise_samples': 1, 'noise_sharing': None, 'cost_function': 'cross-entropy', 'l1_regularization': None, 'l2_regularization': None}
    real = theano.function
    theano.function = lambda *a, **k: None
    try:
        make = lambda seed: (lambda net: create_optimizer(o, net, NoCost(net)))(FakeNet(numpy.random.RandomState(seed)))
        a, b = make(1), make(2)
    finally:
        theano.function = real
    r = numpy.random.RandomState(c['seed'])
    names = sorted(a._params.get_variables())
    want = {}
    s = h5()
    b.get_state(s)
    for n in names:
        p = a._params[n]
        sh = p.get_value().shape
        want[n] = r.uniform(-3, 3, sh).astype(theano.config.floatX)
        p.set_value(want[n] if sh else numpy.dtype(theano.config.floatX).type(want[n]))
    a.learning_rate = c['lr'] / 8
    a.get_state(s)
    b.learning_rate = 99.0
    b.set_state(s)
    check(float(b.learning_rate) == c['lr'] / 8, 'learning rate', got=float(b.learning_rate))
    for n in names: check((numpy.asarray(b._params[n].get_value()) == want[n]).all(), 'optimizer parameter', name=n)
    for n in names[:1]:
        del s[n]
        check(raises(IncompatibleStateError, b.set_state, s), 'a missing optimizer parameter is reported')
    del s['optimizer']
    check(raises(IncompatibleStateError, b.set_state, s), 'a missing optimizer state is reported')


R = Runner('Architectures with up to 14 inputs, layers and layer inputs, parameter sets of any rank, optimizers of every type and whole networks are saved to in-memory HDF5 states (new or already used) and restored by the real code; values, order, and rejection of altered or missing contents are compared.')
R.kind('description', gen, run, weight=2)
R.kind('parameters', gen_par, run_par, weight=2)
R.kind('optimizer', gen_net, run_opt, weight=1, n=40)
R.kind('network', gen_net, run_net, weight=2, n=12)
if __name__ == '__main__': R.main()
