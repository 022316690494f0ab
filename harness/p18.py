from common import *
import trainerlib as L


def gen(rng):
    n = rng.randint(1, 40)
    f = rng.randint(1, n)
    return {'n': n, 'f': f, 's': rng.choice([1, 1, rng.randint(1, 9)])}


def run(c):
    n, f, s = c['n'], c['f'], c['s']
    tr, net, opt, state, log, fl = L.make(n, {'validation_frequency': f, 'patience': -1, 'max_epochs': 2},
                                          [100.0] * (2 * n + 5), s)
    L.run_train(tr)
    fl.close()
    u, samples = 0, []
    for e in log:
        if e[0] == 'update': u += 1
        else: samples.append(u)
    due = [-(-i * n // f) for i in range(1, f + 1)]       # ceil(i n / f)
    assert len(set(due)) == f
    want = [u for u in range(1, n + 1) if any(d - s + 1 <= u <= d for d in due + [n + d for d in due])]
    want += [n + x for x in range(1, n + 1) if any(d - s + 1 <= x <= d for d in due + [n + d for d in due])]
    check(u == 2 * n, 'number of updates', got=u)
    check(samples == want, 'updates at which validation samples are taken', got=samples, want=want)


def gen2(rng):
    n = rng.choice([rng.randint(1, 60), rng.randint(1, 5000)])
    f = rng.randint(1, min(n, rng.choice([3, 20, 5000])))
    return {'n': n, 'f': f, 'k': rng.randint(0, 12)}


def run2(c):
    n, f, k = c['n'], c['f'], c['k']
    tr = L.Trainer.__new__(L.Trainer)
    tr._updates_per_epoch = n
    due = {-(-i * n // f) for i in range(1, 2 * f + 20)}
    for u in range(1, n + 1) if n <= 60 else [1, 2, n - 1, n] + sorted(due)[:20]:
        tr.update_number = u
        if not hasattr(tr, '_is_scheduled'): raise Skip()
        check(bool(tr._is_scheduled(f)) == (u in due), 'validation due', n=n, f=f, u=u)
        check(bool(tr._is_scheduled(f, k)) == any(x in due for x in range(u, u + k + 1)), 'validation due within k', n=n, f=f, u=u, k=k)


R = Runner('random (updates per epoch, frequency, samples): real Trainer.train() with a recording scorer; schedule function on a grid')
R.kind('train', gen, run, n=300)
R.kind('schedule', gen2, run2, n=2000)
if __name__ == '__main__': R.main()
