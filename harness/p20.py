from common import *
from theanolm.training.stoppers import create_stopper


class Trainer:
    def __init__(self): self.epoch_number, self._c = 1, None
    def candidate_cost(self): return self._c


def gen(rng):
    mn = rng.randint(0, 4)
    ev = []
    for _ in range(rng.randint(1, 25)):
        r = rng.random()
        if r < .25: ev.append(['epoch'])
        elif r < .5: ev.append(['cost', rng.choice([None, 10.0, 9.0, 8.0, 5.0, 4.5, 1.0, 0.5, 0.0])])
        elif r < .7: ev.append(['ceased'])
        elif r < .85: ev.append(['mb'])
        else: ev.append(['ep'])
    return {'crit': rng.choice(['epoch-count', 'no-improvement', 'annealing-count']), 'min': mn,
            'max': rng.randint(1, 6), 'anneal': rng.randint(0, 3), 'events': ev}


def run(c):
    t = Trainer()
    s = create_stopper({'stopping_criterion': c['crit'], 'min_epochs': c['min'], 'max_epochs': c['max'],
                        'max_annealing_count': c['anneal']}, t)
    decreases = 0
    prev = None          # candidate cost at the latest decrease that had one
    stalled = False      # latest decrease brought no improvement and none found since

    def cont():
        nonlocal stalled
        if c['crit'] == 'epoch-count' or t.epoch_number <= c['min']: return True
        if c['crit'] == 'annealing-count': return decreases <= c['anneal']
        if stalled and t._c is not None and (prev is None or t._c < prev): stalled = False
        return not stalled
    for i, e in enumerate(c['events']):
        if e[0] == 'epoch': t.epoch_number += 1
        elif e[0] == 'cost': t._c = e[1]
        elif e[0] == 'ceased':
            decreases += 1
            stalled = t._c is None or (prev is not None and not t._c < prev)
            if t._c is not None: prev = t._c
            s.improvement_ceased()
        elif e[0] == 'mb':
            got = s.start_new_minibatch()
            check(bool(got) == cont(), 'mini-batch decision', step=i, got=got)
        else:
            want = t.epoch_number <= c['max'] and cont()
            got = s.start_new_epoch()
            check(bool(got) == want, 'epoch decision', step=i, got=got, want=want)


R = Runner('random histories of epochs, candidate costs, learning rate decreases and decisions')
R.kind('history', gen, run, n=20000)
if __name__ == '__main__': R.main()
