from common import *
import math
import numpy
import theano
import theano.tensor as tensor
from collections import OrderedDict
from theanolm.training import create_optimizer, CrossEntropyCost

NW, NC, K = 5, 4, 3
F = theano.config.floatX


class Voc:
    word_to_id = {'<unk>': 2}
    def num_shortlist_words(self): return NW
    def num_classes(self): return NC


class Net:
    """Predictions depend on every word up to the current one and on parameters of two ranks."""
    def __init__(self):
        r = numpy.random.RandomState(5)
        self.vocabulary = Voc()
        self.E = theano.shared(r.uniform(-1, 1, (NW, K)).astype(F), 'E')
        self.C = theano.shared(r.uniform(-1, 1, (NC, K)).astype(F), 'C')
        self.b = theano.shared(r.uniform(-1, 1, (NC,)).astype(F), 'b')
        self.W = theano.shared(r.uniform(-2, 2, (K, NC)).astype(F), 'W')
        self.start = [p.get_value() for p in self.params()]
        self.input_word_ids = tensor.matrix('input_word_ids', dtype='int64')
        self.input_class_ids = tensor.matrix('input_class_ids', dtype='int64')
        self.target_word_ids = tensor.matrix('target_word_ids', dtype='int64')
        self.target_class_ids = tensor.matrix('target_class_ids', dtype='int64')
        self.mask = tensor.matrix('mask', dtype='int8')
        self.is_training = tensor.scalar('is_training', dtype='int8')
        self.num_noise_samples = tensor.scalar('num_noise_samples', dtype='int64')
        h = tensor.cumsum(self.E[self.input_word_ids] + self.C[self.input_class_ids], axis=0)
        e = tensor.exp(tensor.dot(tensor.tanh(h), self.W) + self.b)
        self._p = e / e.sum(axis=2, keepdims=True)

    def params(self): return [self.E, self.C, self.b, self.W]
    def reset(self):
        for p, v in zip(self.params(), self.start): p.set_value(v)
    def get_variables(self): return OrderedDict((p.name, p) for p in self.params())

    def target_probs(self):
        t, s = self.target_class_ids.shape[0], self.target_class_ids.shape[1]
        return self._p[tensor.arange(t).dimshuffle(0, 'x'), tensor.arange(s).dimshuffle('x', 0), self.target_class_ids]

    def numpy_logprobs(self, words, classes):
        E, C, b, W = [p.get_value().astype(float) for p in self.params()]
        h = numpy.zeros(K)
        out = []
        for t in range(len(words) - 1):
            h = h + E[words[t]] + C[classes[t]]
            a = numpy.tanh(h).dot(W) + b
            out.append(a[classes[t + 1]] - numpy.log(numpy.exp(a).sum()))
        return out


_net, _fns = [], {}


def net():
    if not _net: _net.append(Net())
    return _net[0]


def batch(rng):
    S = rng.randint(1, 4)
    L = [rng.randint(2, 6) for _ in range(S)]
    T = max(L)
    return {'words': [[rng.randint(0, NW - 1) for _ in range(T)] for _ in range(S)], 'classes': [[rng.randint(0, NC - 1) for _ in range(T)] for _ in range(S)], 'len': L}


def gen_cost(rng):
    c = batch(rng)
    c['ex'] = rng.choice([None, None, 2])
    c['l1'] = rng.choice([None, None, 0.25])
    c['l2'] = rng.choice([None, None, 0.5])
    if rng.random() < .2: c['words'] = [[2] * len(w) for w in c['words']]
    return c


def mats(c):
    w, k = numpy.array(c['words']).T, numpy.array(c['classes']).T
    m = numpy.array([[1 if t < l else 0 for l in c['len']] for t in range(w.shape[0])], 'int8')
    return w, k, m


def want_cost(n, c, ex):
    tot, cnt = 0.0, 0
    for w, k, l in zip(c['words'], c['classes'], c['len']):
        for t, lp in enumerate(n.numpy_logprobs(w[:l], k[:l])):
            if ex is not None and w[t + 1] == ex: continue
            tot += lp
            cnt += 1
    return tot, cnt


def run_cost(c):
    n = net()
    n.reset()
    key = (c['ex'], c['l1'], c['l2'])
    if key not in _fns:
        cost, num = CrossEntropyCost(n, c['ex'], c['l1'], c['l2']).get_tensor()
        w, k = tensor.matrix(dtype='int64'), tensor.matrix(dtype='int64')
        _fns[key] = theano.function([w, k, n.mask], [cost, num], givens=[(n.input_word_ids, w[:-1]), (n.input_class_ids, k[:-1]), (n.target_word_ids, w[1:]), (n.target_class_ids, k[1:])], on_unused_input='ignore')
    w, k, m = mats(c)
    got, num = _fns[key](w, k, m[1:])
    tot, cnt = want_cost(n, c, c['ex'])
    check(int(num) == cnt, 'number of target words', got=int(num), want=cnt)
    if cnt:
        want = -tot / cnt
        if c['l1'] is not None: want += c['l1'] * sum(float(abs(p.get_value()).sum()) for p in n.params())
        if c['l2'] is not None: want += c['l2'] * sum(float((p.get_value() ** 2).sum()) for p in n.params())
        check(close(float(got), want), 'cost is the masked mean of the target log probabilities', got=float(got), want=want)


METHODS = ['sgd', 'sgd', 'sgd', 'adagrad', 'adadelta', 'rmsprop-sgd', 'adam', 'nesterov', 'rmsprop-nesterov']


def gen_update(rng):
    c = batch(rng)
    c['ex'] = rng.choice([None, 2])
    c['method'] = rng.choice(METHODS)
    c['max'] = rng.choice([1e-3, 0.05, 0.3, 5.0, 100.0])
    c['lr'] = rng.choice([0.1, 1.0, 0.01])
    if any(all(x == 2 for x in w[1:l]) for w, l in zip(c['words'], c['len'])): c['ex'] = None
    return c


_opts = {}


def run_update(c):
    n = net()
    n.reset()
    key = (c['method'], c['ex'])
    if key not in _opts:
        o = {'method': c['method'], 'epsilon': 1e-6, 'gradient_decay_rate': 0.9, 'sqr_gradient_decay_rate': 0.99, 'learning_rate': 0.1, 'weights': numpy.ones(1, F),
             'momentum': 0.9, 'max_gradient_norm': 1.0, 'num_noise_samples': 1, 'noise_sharing': None}
        lim = theano.shared(numpy.asarray(1.0, F), 'limit')
        opt = create_optimizer(dict(o), n, CrossEntropyCost(n, c['ex']))
        _opts[key] = (o, {1.0: opt})
    o, by = _opts[key]
    if c['max'] not in by: by[c['max']] = create_optimizer(dict(o, max_gradient_norm=c['max']), n, CrossEntropyCost(n, c['ex']))
    opt = by[c['max']]
    n.reset()
    opt.learning_rate = numpy.asarray(c['lr'], F)[()]
    w, k, m = mats(c)
    before = [p.get_value().astype(float) for p in n.params()]
    opt.update_minibatch(w, k, numpy.zeros(w.shape, 'int8'), m)
    d = [p.get_value().astype(float) - b for p, b in zip(n.params(), before)]
    norm = math.sqrt(sum(float((x ** 2).sum()) for x in d))
    fac = 1.9 if 'nesterov' in c['method'] else 1.0
    fresh = 'nesterov' not in c['method'] or not getattr(opt, '_used', False)
    opt._used = True
    if fresh: check(norm <= fac * c['lr'] * c['max'] * 1.001 + 1e-9, 'the norm of the update does not exceed the limit', got=norm, want=fac * c['lr'] * c['max'])
    if c['method'] != 'sgd': return
    # numerical gradient of the masked mean
    g = []
    n.reset()
    for p in n.params():
        v = p.get_value()
        gg = numpy.zeros(v.shape)
        for ix in numpy.ndindex(*v.shape):
            r = []
            for e in (1e-5, -1e-5):
                x = v.copy(); x[ix] += e
                p.set_value(x)
                tot, cnt = want_cost(n, c, c['ex'])
                r.append(-tot / cnt)
            p.set_value(v)
            gg[ix] = (r[0] - r[1]) / 2e-5
        g.append(gg)
    gn = math.sqrt(sum(float((x ** 2).sum()) for x in g))
    f = min(gn, c['max']) / (gn + 1e-6) if gn > 0 else 1.0
    for a, b in zip(d, g):
        check(numpy.allclose(a, -c['lr'] * f * b, rtol=2e-3, atol=1e-6 * c['lr'] + 1e-8), 'every gradient is scaled by the same factor', got=a, want=(-c['lr'] * f * b))


R = Runner('random mini-batches with sequences of different lengths over a small differentiable network made of Theano operations; all optimizers; oracle computes the masked mean in numpy and its gradient by finite differences')
R.kind('cost', gen_cost, run_cost, n=1500)
R.kind('update', gen_update, run_update, n=250)
if __name__ == '__main__': R.main()
