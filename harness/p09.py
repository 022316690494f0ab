from common import *
from latlib import *


def gen(rng):
    c = gen_dag(rng, n=rng.choice([2, 3, 5, rng.randint(2, 14)]) if rng.random() > .05 else rng.randint(15, 40), one_final=rng.random() < .5,
                times=rng.choice(['none', 'all', 'some', 'same', 'random', 'random'])) if rng.random() > .02 else {'n': 1, 'links': [], 'times': [None], 'initial': 0, 'final': 0}
    c['finals'] = []
    return c


def gen_unreach(rng):
    c = gen_dag(rng, one_final=False, times=rng.choice(['none', 'random']))
    # start from another node, so that part of the graph cannot be reached
    c['finals'] = []
    c['initial'] = rng.randrange(c['n'])
    return c


def gen_cycle(rng):
    c = gen_dag(rng, n=rng.randint(3, 9), one_final=False)
    c['finals'] = []
    for _ in range(rng.randint(1, 2)):
        l = rng.choice(c['links'])
        c['links'].append([l[1], l[0], 'a', 0., 0., ''])
    if rng.random() < .2:
        i = rng.randrange(c['n'])
        c['links'].append([i, i, 'a', 0., 0., ''])
    return c


def reach(c):
    adj = {}
    for l in c['links']: adj.setdefault(l[0], []).append(l[1])
    seen, todo = {c['initial']}, [c['initial']]
    while todo:
        for j in adj.get(todo.pop(), ()):
            if j not in seen: seen.add(j); todo.append(j)
    return seen


def valid(order, c, R, indeg_all):
    """Checks the order against the specification."""
    pos = {i: p for p, i in enumerate(order)}
    check(len(pos) == len(order), 'a node is visited twice', order=order)
    for l in c['links']:
        if l[0] in pos and l[1] in pos:
            check(pos[l[0]] < pos[l[1]], 'a link goes backwards', order=order, link=l[:2])
    left = dict(indeg_all)
    ready = {c['initial']}
    out = {}
    for l in c['links']: out.setdefault(l[0], []).append(l[1])
    key = lambda i: (c['times'][i] is None, c['times'][i] if c['times'][i] is not None else 0)
    for i in order:
        check(i in ready, 'a node is visited before its predecessors', order=order, node=i)
        check(all(key(i) <= key(j) for j in ready), 'a node with an earlier time stamp was available', order=order, node=i, ready=sorted(ready))
        ready.discard(i)
        for j in out.get(i, ()):
            left[j] -= 1
            if left[j] == 0: ready.add(j)
    return ready


def run(c):
    lat = build(c)
    R = reach(c)
    order = [nd.id for nd in lat.sorted_nodes()]
    check(set(order) == R and len(order) == len(R), 'every reachable node exactly once', order=order, reachable=sorted(R))
    indeg = {i: sum(1 for l in c['links'] if l[1] == i and l[0] in R) for i in range(c['n'])}
    valid(order, c, R, indeg)


def run_cycle(c):
    lat = build(c)
    R = reach(c)
    try:
        order = [nd.id for nd in lat.sorted_nodes()]
    except Exception as e:
        check(type(e).__name__ == 'InputError', 'only an input error is raised', error=repr(e))
        return
    check(set(order) <= R and len(set(order)) == len(order), 'only reachable nodes, once', order=order)
    pos = {i: p for p, i in enumerate(order)}
    for l in c['links']:
        if l[0] in pos and l[1] in pos: check(pos[l[0]] < pos[l[1]], 'a link goes backwards', order=order, link=l[:2])


r = Runner('random acyclic and cyclic lattices with up to 40 nodes')
r.kind('acyclic', gen, run, n=2500)
r.kind('unreachable', gen_unreach, run, n=800)
r.kind('cycles', gen_cycle, run_cycle, n=1000)
r.main()
