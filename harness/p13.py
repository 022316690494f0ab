from decoderlib import *
from theanolm.scoring.rescoredlattice import RescoredLattice
from theanolm.scoring.lattice import Lattice


def out_of(lat):
    out = {}
    for l in lat['links']: out.setdefault(l[0], []).append(l)
    return out


def determinised(lat):
    """words label links uniquely at each node, also over null links, and there is one way to end without further words"""
    out, final = out_of(lat), lat['final']

    def words(l): return [l[2]] if l[2] is not None else [w for m in out.get(l[1], ()) for w in words(m)]

    def ends(n): return (n == final) + sum(ends(l[1]) for l in out.get(n, ()) if l[2] is None)
    for n in range(lat['n']):
        ws = [w for l in out.get(n, ()) for w in words(l)]
        if len(set(ws)) != len(ws) or ends(n) > 1: return False
    return True


def prune_links(rng, lat):
    """drops links until words are unique"""
    links = list(lat['links'])
    rng.shuffle(links)
    keep = []
    for l in links:
        lat['links'] = keep + [l]
        if determinised(lat): keep.append(l)
    # no dead ends
    alive, more = {lat['final']}, True
    while more:
        more = [l[0] for l in keep if l[1] in alive and l[0] not in alive]
        alive.update(more)
    lat['links'] = [l for l in keep if l[1] in alive]
    return lat


def gen(rng, base=[None, 0]):
    if base[1] == 0:
        c = gen_base(rng)
        c['opts'] = gen_opts(rng, c['counts'])
        c['opts']['recombination_order'] = rng.choice([None, None, 1, 2, 3])
        if rng.random() < .2: c['opts']['beam'] = rng.choice([5.0, 20.0])
        if rng.random() < .2: c['opts']['max_tokens_per_node'] = rng.choice([1, 2, 4])
        base[:] = [c, 12]
    base[1] -= 1
    c = dict(base[0])
    c['lat'] = prune_links(rng, gen_lattice(rng, c, **({} if c['opts']['recombination_order'] is None else {'null': 0})))
    if not [l for l in c['lat']['links'] if l[0] == c['lat']['initial']]: raise Skip()
    return c


def num(x): return 0.0 if x is None else x


def orig_path(lat, words):
    """(ac, lm, transitions) of the words of a path and of its end, from the original lattice"""
    out = out_of(lat)

    def find(n, w):
        """the links from node n that end in a link with word w"""
        for l in out.get(n, ()):
            if l[2] == w: return [l]
            if l[2] is None:
                r = find(l[1], w)
                if r: return [l] + r

    def end(n):
        if n == lat['final']: return []
        for l in out.get(n, ()):
            if l[2] is None:
                r = end(l[1])
                if r is not None: return [l] + r
    n, res = lat['initial'], []
    join = lambda ls: (sum(num(l[3]) for l in ls), sum(num(l[4]) for l in ls), '_'.join(l[5] for l in ls if l[5]))
    for w in words:
        ls = find(n, w)
        res.append((w,) + join(ls))
        n = ls[-1][1]
    return res, join(end(n))


def run(c):
    W, o, lat = Words(c), c['opts'], c['lat']
    if o['use_shortlist'] and W.oos is not None and any(x != x for x in W.oos.values()): raise Skip()
    if len(paths(lat)) == 0: raise Skip()
    d = decoder(c)
    orig = build_lat(lat)
    with numpy.errstate(all='ignore'):
        final, recomb = d.decode(orig)
    if any(float(t.nn_lm_logprob) in (float('inf'), NEG) for t in final + [r[0] for r in recomb]): raise Skip()
    before = [(len(n.out_links), n.id, n.final) for n in orig.nodes]
    new = RescoredLattice(orig, final, recomb, W.v)
    check([(len(n.out_links), n.id, n.final) for n in orig.nodes] == before, 'the original lattice is unchanged')
    check(new.utterance_id == orig.utterance_id, 'utterance ID')
    check([n.id for n in new.nodes] == list(range(len(new.nodes))), 'nodes are numbered by position', got=[n.id for n in new.nodes])
    check([n.final for n in new.nodes] == [False] * (len(new.nodes) - 1) + [True], 'the final node is the last one')
    check(new.initial_node is new.nodes[0], 'initial node')
    outs = [id(l) for n in new.nodes for l in n.out_links]
    check(sorted(outs) == sorted(id(l) for l in new.links) and len(set(outs)) == len(outs), 'every link is listed once')
    for n in new.nodes:
        for l in n.out_links: check(l.start_node is n and any(l.end_node is m for m in new.nodes), 'ends of a link')
    end = new.nodes[-1]

    def walk(n, p, res):
        if len(res) > 2000: raise Skip()
        if n is end: res.append(list(p))
        for l in n.out_links: walk(l.end_node, p + [l], res)
        return res
    every = walk(new.initial_node, [], [])
    wanted = []
    for t in final:
        words = t.history_words(W.v)[1:-1]
        ls, tail = orig_path(lat, words)
        hit = [p for p in every if [l.word for l in p] == words + [None] and
               all(close(num(l.ac_logprob), x[1]) and close(num(l.lm_logprob), x[2]) and l.transitions == x[3] for l, x in zip(p, ls)) and
               close(num(p[-1].ac_logprob), tail[0]) and close(num(p[-1].lm_logprob), tail[1] + float(t.nn_lm_logprob)) and p[-1].transitions == tail[2]]
        check(hit, 'a final hypothesis is a path of the new lattice', words=words, want=str((ls, tail, float(t.nn_lm_logprob))),
              got=str([[(l.word, num(l.ac_logprob), num(l.lm_logprob), l.transitions) for l in p] for p in every if [l.word for l in p] == words + [None]]))
        check(len([p for p in every if [l.word for l in p] == words + [None]]) == 1, 'one path for each word sequence', words=words)
        wanted.append(words + [None])
    if not recomb:
        got = [[l.word for l in p] for p in every]
        check(sorted(map(str, got)) == sorted(map(str, wanted)), 'no other path', got=got, want=wanted)
        check(len(new.links) == len(set(id(l) for p in every for l in p)), 'every link is on a path')

    def follow(words):
        """node and last link of the path with these words"""
        n, last = new.initial_node, None
        for w in words:
            ls = [l for l in n.out_links if l.word == w]
            if len(ls) != 1: return None, len(ls)
            n, last = ls[0].end_node, ls[0]
        return n, last
    for t, h, nn in recomb:
        tw = t.history_words(W.v)[1:]
        hw = [W.words[x] if not isinstance(x, str) else x for x in h][1:]
        if tw[-1:] == ['</s>'] or not tw: continue
        n, kept = follow(hw)
        if n is None: continue
        m, link = follow(tw)
        check(m is n, 'a recombined hypothesis leads into the node of the kept one', words=tw, kept=hw)
        check(link.word == kept.word and num(link.ac_logprob) == num(kept.ac_logprob) and link.transitions == kept.transitions and
              close(num(link.lm_logprob), num(kept.lm_logprob) + float(t.nn_lm_logprob) - float(nn)), 'scores of the link of a recombined hypothesis',
              got=(num(link.ac_logprob), num(link.lm_logprob)), want=(num(kept.ac_logprob), num(kept.lm_logprob) + float(t.nn_lm_logprob) - float(nn)))


R = Runner('Random lattices whose words label links uniquely (null links included) are decoded by the real decoder and rebuilt by RescoredLattice; all paths of the new lattice are enumerated and compared with the final hypotheses, and recombined hypotheses are followed word by word.')
R.kind('rescore', gen, run)
if __name__ == '__main__': R.main()
