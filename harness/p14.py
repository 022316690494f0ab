import io
from common import *
from latlib import *


def gen_slf(rng):
    c = gen_dag(rng, scores=rng.choice([True, 'some']))
    c['utt'] = rng.choice(['u', 'utterance 1', 'ab-1_x.y', 'a=b'])
    c['lm_scale'] = rng.choice([None, 1.0, 12.5, 0.0, 0])
    c['wi'] = rng.choice([None, -0.75, 0.0, 2])
    if rng.random() < .2:
        l = rng.choice(c['links'])
        l[rng.choice([3, 4])] = rng.choice([float('-inf'), 0.0, 1e-12, -123456.789, 1e-300])
    return c


def run_slf(c):
    lat = build(c)
    before = [(l.start_node.id, l.end_node.id, l.word, l.ac_logprob, l.lm_logprob, l.transitions) for l in lat.links]
    f = io.StringIO()
    lat.write_slf(f)
    check(before == [(l.start_node.id, l.end_node.id, l.word, l.ac_logprob, l.lm_logprob, l.transitions) for l in lat.links], 'writing does not change the lattice')
    t = f.getvalue()
    try:
        b = SLFLattice(io.StringIO(t))
    except Exception as e:
        raise Violation('a written lattice cannot be read: %r' % e, text=t)
    consistent(b)
    check(len(b.nodes) == c['n'], 'number of nodes')
    same_links(b.links, [l[:5] + [''] for l in c['links']], 'links', 1e-9)
    for l, w in zip(b.links, c['links']):
        for g, x in ((l.ac_logprob, w[3]), (l.lm_logprob, w[4])):
            if x is not None: check(float(g) == x or abs(float(g) - x) <= 1e-6 * abs(x), 'score of a link', got=float(g), want=x)
    check([nd.time for nd in b.nodes] == c['times'], 'times', got=[nd.time for nd in b.nodes], want=c['times'])
    check(b.initial_node is b.nodes[c['initial']], 'initial node')
    check([bool(nd.final) for nd in b.nodes] == [i == c['final'] for i in range(c['n'])], 'final node')
    check(b.utterance_id == c['utt'], 'utterance ID', got=b.utterance_id)
    for g, w, what in ((b.lm_scale, c['lm_scale'], 'LM scale'), (b.wi_penalty, c['wi'], 'word insertion penalty')):
        check((g is None) == (w is None) and (w is None or close(float(g), w, 1e-6)), what, got=g, want=w)


KW = ['<eps>', 'a', 'b', 'c', 'yksi', 'ä', '<unk>', 'x-y']


def gen_kaldi(rng):
    c = gen_dag(rng, words=KW[1:])
    n = c['n']
    # the initial node is the first one and the final node the last one
    ren = {c['initial']: 0, c['final']: n - 1}
    rest = [i for i in range(n) if i not in ren]
    for i, j in zip(rest, range(1, n - 1)): ren[i] = j
    for l in c['links']:
        l[0], l[1] = ren[l[0]], ren[l[1]]
        if l[1] == n - 1: l[2] = None
        if rng.random() < .05: l[rng.choice([3, 4])] = 0.0
    c['initial'], c['final'] = 0, n - 1
    c['utt'] = rng.choice(['u1', 'ab-2_c'])
    c['tab'] = rng.randrange(1 << 20)
    return c


def run_kaldi(c):
    rng = random.Random(c['tab'])
    tab = KW[1:]
    rng.shuffle(tab)
    tab = ['<eps>'] + tab
    lat = build(c)
    f = io.StringIO()
    lat.write_kaldi(f, {w: i for i, w in enumerate(tab)})
    t = f.getvalue()
    check(t.endswith('\n\n') and t.count('\n\n') == 1, 'an empty line ends the lattice', text=t)
    try:
        b = KaldiLattice(t.split('\n'), tab)
    except Exception as e:
        raise Violation('a written lattice cannot be read: %r' % e, text=t)
    consistent(b)
    check(len(b.nodes) == c['n'], 'number of nodes', got=len(b.nodes))
    check(b.utterance_id == c['utt'] and b.initial_node is b.nodes[0], 'utterance ID and initial node')
    check([bool(nd.final) for nd in b.nodes] == [False] * (c['n'] - 1) + [True], 'final node')
    for i in range(c['n']):
        same_links(b.nodes[i].out_links, [l for l in c['links'] if l[0] == i], 'arcs of node %d' % i, 1e-6)


r = Runner('random lattices of up to 9 nodes')
r.kind('slf', gen_slf, run_slf, n=2000)
r.kind('kaldi', gen_kaldi, run_kaldi, n=2000)
r.main()
