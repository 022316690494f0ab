"""P19: candidates and roll-back."""
from common import *
import numpy
import trainerlib as L


def iter_state(tr):
    import h5py
    with h5py.File(L.unique('it'), 'w', driver='core', backing_store=False) as h:
        tr._training_iter.get_state(h)
        return [int(x) for x in h['iterator/order'][...]], int(h['iterator'].attrs['next_line'])


def snap(tr, net, opt):
    return {'net': net.value.tolist(), 'lr': opt.learning_rate, 'acc': opt.acc, 'epoch': tr.epoch_number, 'update': tr.update_number, 'iter': iter_state(tr)}


def stored(state):
    t = state['trainer']
    return {'net': state['network/p'][...].tolist(), 'lr': float(state['optimizer'].attrs['lr']), 'acc': float(state['optimizer'].attrs['acc']),
            'epoch': int(t.attrs['epoch_number']), 'update': int(t.attrs['update_number']),
            'iter': ([int(x) for x in state['iterator/order'][...]], int(state['iterator'].attrs['next_line']))}


def median(x):
    x = sorted(x)
    m = len(x) // 2
    return x[m] if len(x) % 2 else (x[m - 1] + x[m]) / 2


def gen(rng):
    n = rng.choice([rng.randint(1, 8), rng.randint(4, 25)])
    f = rng.randint(1, min(n, 5))
    s = rng.choice([1, 2, 3, 4, 5, rng.randint(1, 7)])
    base, out = 100.0, []
    for _ in range(rng.choice([20, 60])):
        base *= rng.choice([1, 1, 0.9, 0.9989, 0.9991, 0.999, 1.05, 0.99])
        out.append(base * rng.choice([1, 1, 1, rng.uniform(.9, 1.1)]))
    return {'n': n, 'f': f, 's': s, 'patience': rng.choice([0, 0, 1, 2, -1]), 'costs': out, 'epochs': rng.randint(1, 4), 'seed': rng.randrange(10 ** 6), 'samp': rng.choice([1.0, 1.0, 1.0, 0.7, 0.5])}


def run(c):
    n, f, s = c['n'], c['f'], c['s']
    if round(n * c['samp']) < 1: raise Skip()
    box, cur = {}, []
    info = {'ceased': 0}

    def hook():
        cur.append(snap(box['tr'], box['net'], box['opt']))
    tr, net, opt, state, log, fl = L.make(n, {'validation_frequency': f, 'patience': c['patience'], 'max_epochs': c['epochs']}, c['costs'], s, seed=c['seed'], hook=hook, max_updates=400, sampling=[c['samp']])
    box.update(tr=tr, net=net, opt=opt)
    due = {-(-i * n // f) for i in range(1, f + 1)}
    O = {'hist': [], 'cand': None, 'snap': None, 'local': [], 'lr': opt.learning_rate, 'prev': snap(tr, net, opt), 'n': 0}
    ceased = tr._stopper.improvement_ceased

    def inform(*a, **k):
        info['ceased'] += 1
        return ceased(*a, **k)
    tr._stopper.improvement_ceased = inform
    more = tr._stopper.start_new_minibatch

    def after():
        # called after every update and its validation
        now = snap(tr, net, opt)
        rolled = False
        if cur:
            k = cur.pop()
            check(not cur, 'one sample per update')
            k['cost'] = c['costs'][O['n']]
            O['n'] += 1
            O['local'].append(k)
            if k['update'] in due:
                if len(O['local']) == s:
                    cost = median([x['cost'] for x in O['local']])
                    O['hist'].append(cost)
                    if O['cand'] is None or cost < 0.999 * O['hist'][O['cand']]:
                        O['cand'], O['snap'] = len(O['hist']) - 1, O['local'][s - 1 - s // 2]
                        O['chist'] = list(O['hist'])
                    elif c['patience'] >= 0 and len(O['hist']) - 1 - O['cand'] > c['patience']:
                        rolled = True
                        want = dict(O['snap'], lr=k['lr'] / 2)
                        want.pop('cost', None)
                        O['hist'] = list(O['chist'])
                        check(now == want, 'state after rolling back', got=now, want=want)
                        check(info['ceased'] == 1, 'the stopping criterion is informed')
                O['local'] = []
            if not rolled:
                k2 = {x: k[x] for x in now}
                check(now == k2, 'state unchanged by a validation without roll-back', got=now, want=k2)
        check(info['ceased'] == (1 if rolled else 0), 'the stopping criterion is informed of roll-backs only')
        info['ceased'] = 0
        check(numpy.allclose(list(tr._cost_history), O['hist'], rtol=1e-12, atol=0) and len(tr._cost_history) == len(O['hist']), 'cost history', got=list(tr._cost_history), want=O['hist'])
        if O['cand'] is None: check('trainer' not in state, 'no candidate stored yet')
        else:
            got, want = stored(state), {x: y for x, y in O['snap'].items() if x != 'cost'}
            check(got == want, 'stored candidate', got=got, want=want)
            check(numpy.allclose(state['trainer/cost_history'][...], O['chist'], rtol=1e-12, atol=0), 'stored cost history')
            check(close(tr.candidate_cost(), O['hist'][O['cand']], 1e-12), 'cost of the candidate')
        return more()
    tr._stopper.start_new_minibatch = after
    epoch = tr._stopper.start_new_epoch

    def new_epoch():
        O['local'] = []
        check(tr.update_number == 0, 'update counter at the start of an epoch', got=tr.update_number)
        return epoch()
    tr._stopper.start_new_epoch = new_epoch
    try: L.run_train(tr)
    finally: fl.close()


def gen0(rng): return {'n': rng.randint(1, 12), 'epochs': rng.randint(0, 5), 'seed': rng.randrange(10 ** 6)}


def run0(c):
    tr, net, opt, state, log, fl = L.make(c['n'], {'validation_frequency': 1, 'patience': 0, 'max_epochs': c['epochs']}, None, None, seed=c['seed'])
    seen = []
    epoch = tr._stopper.start_new_epoch

    def new_epoch():
        seen.append((tr.epoch_number, tr.update_number))
        if len(seen) > 1:
            got, want = stored(state), dict(snap(tr, net, opt), epoch=len(seen) - 1, update=c['n'])
            check(got == want, 'state stored after an epoch', got=got, want=want)
        else: check('trainer' not in state, 'nothing stored before the first epoch')
        return epoch()
    tr._stopper.start_new_epoch = new_epoch
    L.run_train(tr)
    fl.close()
    check(seen == [(e + 1, 0) for e in range(c['epochs'] + 1)], 'epochs and update counters', got=seen)
    check(sum(e[0] == 'update' for e in log) == c['n'] * c['epochs'], 'updates')


R = Runner('random schedules, costs and patience: the real Trainer.train() compared with a simulation after every update')
R.kind('validation', gen, run, 6)
R.kind('no validation', gen0, run0, 1)
if __name__ == '__main__': R.main()
