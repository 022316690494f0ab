"""Random lattices and their text formats."""
import math
from common import *
from theanolm.scoring.lattice import Lattice
from theanolm.scoring.slflattice import SLFLattice
from theanolm.scoring.kaldilattice import KaldiLattice

WORDS = ['a', 'b', 'c', "d'e", 'yksi', '<unk>', 'ä', 'x-y', 'x.y']


def gen_dag(rng, n=None, words=WORDS, null=.2, scores=True, one_final=True, times=None):
    """nodes 0..n-1 (IDs are positions), links [start, end, word, ac, lm, transitions]; all nodes lie on a path from the source to the sink."""
    n = n or rng.choice([2, 3, rng.randint(2, 9)])
    order = list(range(n))
    if rng.random() < .6: rng.shuffle(order)
    links = []
    f = lambda: round(rng.uniform(-20, 2), 3)

    def link(i, j):
        links.append([order[i], order[j], None if rng.random() < null else rng.choice(words),
                      f() if scores is True or rng.random() < .7 else None, f() if scores is True or rng.random() < .7 else None,
                      '_'.join(str(rng.randint(0, 9)) for _ in range(rng.randint(0, 3)))])
    for j in range(1, n):
        link(rng.randrange(j), j)
    if one_final:
        for i in range(n - 1):
            if not any(l[0] == order[i] for l in links): link(i, rng.randint(i + 1, n - 1))
    for _ in range(rng.choice([0, 0, n, 2 * n])):
        i = rng.randrange(n - 1)
        link(i, rng.randint(i + 1, n - 1))
    rng.shuffle(links)
    t = [None] * n
    kind = times if times is not None else rng.choice(['none', 'all', 'some', 'same'])
    for p, i in enumerate(order):
        if kind == 'all' or (kind == 'some' and rng.random() < .6): t[i] = round(p * .25 + rng.choice([0, 0, rng.uniform(0, 1)]), 2)
        if kind == 'same': t[i] = 1.0
        if kind == 'random': t[i] = round(rng.uniform(0, 3), 1)
    return {'n': n, 'links': links, 'times': t, 'initial': order[0], 'final': order[-1]}


def build(c):
    """A Lattice object with the described nodes and links."""
    lat = Lattice()
    lat.utterance_id = c.get('utt', 'u1')
    lat.lm_scale, lat.wi_penalty = c.get('lm_scale'), c.get('wi')
    lat.nodes = [Lattice.Node(i) for i in range(c['n'])]
    for i, t in enumerate(c['times']): lat.nodes[i].time = t
    for s, e, w, ac, lm, tr in c['links']:
        l = Lattice.Link(lat.nodes[s], lat.nodes[e], w, ac, lm, tr)
        lat.links.append(l)
        lat.nodes[s].out_links.append(l)
        lat.nodes[e].in_links.append(l)
    lat.initial_node = lat.nodes[c['initial']]
    finals = c.get('finals', [c['final']] if c.get('final') is not None else [])
    for i in finals: lat.nodes[i].final = True
    return lat


def consistent(lat):
    """Structural invariants of a lattice."""
    ids = [nd.id for nd in lat.nodes]
    check(ids == list(range(len(lat.nodes))), 'node IDs equal positions', ids=ids)
    seen = set(map(id, lat.links))
    check(len(seen) == len(lat.links), 'a link is listed twice')
    out = [l for nd in lat.nodes for l in nd.out_links]
    inc = [l for nd in lat.nodes for l in nd.in_links]
    check(sorted(map(id, out)) == sorted(map(id, lat.links)), 'outgoing links are the links of the lattice')
    check(sorted(map(id, inc)) == sorted(map(id, lat.links)), 'incoming links are the links of the lattice')
    for nd in lat.nodes:
        for l in nd.out_links: check(l.start_node is nd, 'start node of an outgoing link')
        for l in nd.in_links: check(l.end_node is nd, 'end node of an incoming link')


def same_links(got, want, what, tol=1e-6):
    check(len(got) == len(want), what + ': number of links', got=len(got), want=len(want))
    for i, (l, w) in enumerate(zip(got, want)):
        g = [l.start_node.id, l.end_node.id, l.word, None if l.ac_logprob is None else float(l.ac_logprob),
             None if l.lm_logprob is None else float(l.lm_logprob), l.transitions]
        ok = g[:2] == w[:2] and g[2] == w[2] and all(((g[k] is None) == (w[k] is None)) and (g[k] is None or close(g[k], w[k], tol)) for k in (3, 4))
        if len(w) > 5 and w[5] is not None: ok = ok and g[5] == w[5]
        check(ok, what + ': link %d' % i, got=g, want=w)
