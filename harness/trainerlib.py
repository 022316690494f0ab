"""Drives the real Trainer with recording stand-ins for network, optimizer and scorer."""
import io, os, sys, tempfile, shutil, contextlib
import numpy
import h5py
from theanolm import Vocabulary
from theanolm.training.trainer import Trainer


_File = h5py.File


def _file(name, mode=None, driver=None, **kw):
    # opening a missing file crashes at times in this h5py build (freed message
    # buffer); a non-backed core file is always new
    if driver == 'core' and mode is None and kw.get('backing_store') is False:
        mode, name = 'w', unique(name)
    return _File(name, mode, driver=driver, **kw)


h5py.File = _file


_n = [0]


def unique(name):
    _n[0] += 1
    return '%s%d' % (name, _n[0])


class Done(Exception):
    pass


class Net:
    """One parameter vector, saved and restored through the HDF5 state."""
    def __init__(self): self.value = numpy.zeros(2)
    def get_state(self, state):
        g = state.require_group('network')
        if 'p' in g: g['p'][:] = self.value
        else: g.create_dataset('p', data=self.value)
    def set_state(self, state): self.value = state['network/p'][...].copy()


class Opt:
    def __init__(self, net, log): self.net, self.log, self.learning_rate, self.acc = net, log, 1.0, 0.0
    def get_state(self, state):
        g = state.require_group('optimizer')
        g.attrs['lr'] = self.learning_rate
        g.attrs['acc'] = self.acc
    def set_state(self, state):
        g = state['optimizer']
        self.learning_rate = float(g.attrs['lr'])
        self.acc = float(g.attrs['acc'])
    def update_minibatch(self, word_ids, class_ids, file_ids, mask):
        self.log.append(('update', int(word_ids[1, 0])))
        self.acc += 1
        self.net.value = self.net.value * 0.5 + numpy.array([float(word_ids[1, 0]), self.learning_rate])


class Scorer:
    def __init__(self, log, costs, hook=None): self.log, self.costs, self.i, self.hook = log, costs, 0, hook
    def compute_perplexity(self, it):
        if self.i >= len(self.costs): raise Done()
        c = self.costs[self.i]
        self.i += 1
        self.log.append(('sample', c))
        if self.hook: self.hook()
        return c


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = io.StringIO()
    try: yield
    finally: sys.stdout = old


def vocab(n):
    return Vocabulary.from_file(io.StringIO('\n'.join('w%d' % i for i in range(n)) + '\n'), 'words')


def make(n, options, costs=None, samples=None, seed=0, hook=None, max_updates=None, sampling=(1.0,)):
    """Trainer with n updates per epoch (batch size one, one distinct word per line)."""
    numpy.random.seed(seed)
    d = tempfile.mkdtemp()
    path = os.path.join(d, 'train.txt')
    with open(path, 'w') as f:
        for i in range(n): f.write('w%d\n' % i)
    f = open(path)
    v = vocab(n)
    v.compute_probs({'w%d' % i: 1 for i in range(n)})
    log = []
    opts = {'batch_size': 1, 'sequence_length': None, 'validation_frequency': 1, 'patience': 0, 'stopping_criterion': 'epoch-count',
            'max_epochs': 1, 'min_epochs': 1, 'max_annealing_count': 0}
    opts.update(options)
    with quiet():
        tr = Trainer(opts, v, [f], list(sampling))
        net = Net()
        opt = Opt(net, log)
        if max_updates:
            u = opt.update_minibatch
            cnt = [0]
            def upd(*a):
                cnt[0] += 1
                if cnt[0] > max_updates: raise Done()
                return u(*a)
            opt.update_minibatch = upd
        state = h5py.File(unique('cand'), 'w', driver='core', backing_store=False)
        if costs is not None:
            tr.set_validation(object(), Scorer(log, costs, hook), samples)
        tr.initialize(net, state, opt)
    shutil.rmtree(d)
    return tr, net, opt, state, log, f


def run_train(tr):
    with quiet():
        try:
            tr.train()
            return True
        except Done:
            return False
