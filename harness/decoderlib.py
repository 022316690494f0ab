"""Decoders over small vocabularies, and the exhaustive reading of what decoding means."""
import logging
import math
import numpy
import theano
from common import *
from voclib import gen_voc, build as build_voc, model
from latlib import gen_dag, build as build_lat
from netlib import FakeNetwork
from theanolm.scoring.latticedecoder import LatticeDecoder
logging.disable(logging.CRITICAL)
NEG = float('-inf')
_cache = {}
DEFAULT = {'nnlm_weight': 1.0, 'lm_scale': None, 'wi_penalty': None, 'unk_penalty': None, 'use_shortlist': False, 'unk_from_lattice': False,
           'linear_interpolation': False, 'max_tokens_per_node': None, 'beam': None, 'recombination_order': None}


def network(c):
    """The vocabulary and network of a case."""
    k = json.dumps([c['voc'], c['counts'], c['net']], sort_keys=True)
    if k not in _cache:
        if len(_cache) > 8: _cache.clear()
        v = build_voc(c['voc'])
        if c['counts'] is not None: v.compute_probs(dict((w, n) for w, n in c['counts']), update_class_probs=False)
        net = FakeNetwork(v, c['net'])
        net.step = True
        _cache[k] = (v, net)
    return _cache[k]


def decoder(c):
    k = json.dumps([c['voc'], c['counts'], c['net'], c['opts']], sort_keys=True)
    if k not in _cache:
        v, net = network(c)
        o = dict(DEFAULT)
        o.update(c['opts'])
        with numpy.errstate(all='ignore'):
            _cache[k] = LatticeDecoder(net, o)
    return _cache[k]


class Words:
    """What the vocabulary file says about the words."""
    def __init__(self, c):
        self.v, self.net = network(c)
        self.words, self.n, classes, self.mem = model(c['voc'])
        self.pos = {w: i for i, w in enumerate(self.words)}
        self.unk, self.sos, self.eos = self.pos['<unk>'], self.pos['<s>'], self.pos['</s>']
        self.cls = {}
        for k, cl in enumerate(classes):
            for i in cl: self.cls[i] = k
        self.oos = None
        if c['counts'] is not None:
            count = dict((w, n) for w, n in c['counts'])
            total = sum(count.get(w, 0) for w in self.words[self.n:])
            self.oos = {i: count.get(w, 0) / total if total else float('nan') for i, w in enumerate(self.words) if i >= self.n}

    def short(self, x):
        return x if not isinstance(x, str) and x < self.n else self.unk

    def entry(self, word):
        """what a word label adds to the history"""
        return self.pos.get(word, word)

    def logprob(self, history, word):
        inp = [self.short(x) for x in history]
        t = self.short(word)
        p = float(self.net.probs(inp, [self.cls[i] for i in inp])[self.cls[t]]) * self.mem[t]
        return math.log(p) if p > 0 else NEG

    def increment(self, history, word, opts, link_lm, end=False):
        """the neural network LM score that a word adds"""
        lp = self.logprob(history, word)
        known = not isinstance(word, str)
        replacement = None
        if not end: replacement = link_lm if opts['unk_from_lattice'] else opts['unk_penalty']
        if opts['use_shortlist'] and self.oos is not None:
            if known: return lp + (math.log(self.oos[word]) if self.oos[word] else NEG) if word >= self.n else lp
            return lp if replacement is None else replacement
        if (not known or word >= self.n) and replacement is not None: return replacement
        return lp


def total(opts, lat, ac, lm, nn, words):
    scale = opts['lm_scale'] if opts['lm_scale'] is not None else lat.get('lm_scale') if lat.get('lm_scale') is not None else 1.0
    wi = opts['wi_penalty'] if opts['wi_penalty'] is not None else lat.get('wi') if lat.get('wi') is not None else 0.0
    w = opts['nnlm_weight']
    if opts['linear_interpolation']:
        xs = ([math.log(w) + nn] if w else []) + ([math.log(1 - w) + lm] if w != 1 else [])
        m = max(xs)
        l = m if m == NEG else m + math.log(sum(math.exp(x - m) for x in xs))
    else:
        l = (w * nn if w else 0) + ((1 - w) * lm if w != 1 else 0)
    return ac + l * scale + wi * words


def paths(lat, limit=400):
    """all paths from the initial node to a final node, as lists of links"""
    out = {}
    for l in lat['links']: out.setdefault(l[0], []).append(l)
    finals = set(lat.get('finals', [lat['final']] if lat.get('final') is not None else []))
    res = []

    def go(n, p):
        if len(res) > limit: raise Skip()
        if n in finals: res.append(list(p))
        for l in out.get(n, ()):
            p.append(l)
            go(l[1], p)
            p.pop()
    go(lat['initial'], [])
    return res


def score(W, opts, lat, path):
    """(history, acoustic, lattice LM, network LM, total) of a path"""
    h, ac, lm, nn = [W.sos], 0.0, 0.0, 0.0
    for s, e, w, a, l, t in path:
        if a is not None: ac += a
        if l is not None: lm += l
        if w is not None:
            x = W.entry(w)
            nn += W.increment(h, x, opts, l)
            h = h + [x]
    nn += W.increment(h, W.eos, opts, None, end=True)
    h = h + [W.eos]
    return tuple(h), ac, lm, nn, total(opts, lat, ac, lm, nn, len(h) - 1)


def gen_base(rng):
    voc = gen_voc(rng, 5)
    words = model(voc)[0]
    counts = [[w, rng.randint(1, 20)] for w in words] if rng.random() < .6 else None
    return {'voc': voc, 'counts': counts, 'net': rng.randint(0, 9)}


def gen_opts(rng, counts):
    o = dict(DEFAULT)
    o['nnlm_weight'] = rng.choice([1.0, 0.0, 0.5, round(rng.random(), 2)])
    o['lm_scale'] = rng.choice([None, 1.0, 14.0, 0.0, 0.5])
    o['wi_penalty'] = rng.choice([None, 0.0, -1.5, 0.7])
    o['unk_penalty'] = rng.choice([None, None, -3.0, 0.0])
    o['unk_from_lattice'] = rng.random() < .3
    o['linear_interpolation'] = rng.random() < .3
    o['use_shortlist'] = rng.random() < .5
    return o


def gen_lattice(rng, c, **k):
    words = [w for w in model(c['voc'])[0] if w not in ('<s>', '</s>')] + ['<unk>', 'zzz', 'xyz']
    rng.shuffle(words)
    lat = gen_dag(rng, n=rng.choice([2, 3, 4, 5, 6, 7]), words=words[:rng.choice([2, 3, 4, len(words)])], scores=rng.random() < .6, **k)
    lat['lm_scale'] = rng.choice([None, 10.0, 0.3])
    lat['wi'] = rng.choice([None, -0.4])
    return lat
