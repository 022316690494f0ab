import io
import math
from common import *
from latlib import *

NAMES = {'utt': ['UTTERANCE', 'U'], 'n': ['NODES', 'N'], 'l': ['LINKS', 'L'], 't': ['time', 't'], 'w': ['WORD', 'W'], 's': ['START', 'S'],
         'e': ['END', 'E'], 'a': ['acoustic', 'a'], 'lm': ['language', 'l']}


def gen_slf(rng):
    c = gen_dag(rng, scores=rng.choice([True, 'some']))
    c['style'] = rng.randrange(1 << 30)
    c['nodewords'] = rng.random() < .35
    if c['nodewords']:
        c['nw'] = [rng.choice(WORDS + ['!NULL', '#x']) if rng.random() < .8 else None for _ in range(c['n'])]
        for l in c['links']: l[2] = None
    c['base'] = rng.choice([None, None, 10, 2, 1.0003, 0, 0])
    c['lm_scale'], c['wi'] = rng.choice([None, 12.5]), rng.choice([None, 0.5, 1.0])
    c['utt'] = rng.choice(['utt1', 'utterance 1 2', 'a-b_c.d'])
    c['hdr'] = [rng.random() < .3, rng.random() < .3]        # start= and end= given
    return c


def text(c):
    rng = random.Random(c['style'])
    nm = lambda k: rng.choice(NAMES[k])
    sep = lambda: rng.choice([' ', '\t', '   '])
    q = lambda v: '"%s"' % v if (' ' in v or v.startswith('#') or rng.random() < .1) else v
    junk = lambda: rng.choice(['', '', '\n', '# a comment\n'])
    b = c['base']

    def score(x):
        # value in the log base of the file
        if b == 0: return repr(math.exp(x))
        if b is None: return repr(x)
        return repr(x / math.log(b))
    out = ['# lattice\n' if rng.random() < .5 else '', 'VERSION=1.1\n']
    hd = ['%s=%s' % (nm('utt'), q(c['utt']))]
    if c['lm_scale'] is not None: hd.append('lmscale=%s' % c['lm_scale'])
    if c['wi'] is not None: hd.append('wdpenalty=%s' % c['wi'])
    if b is not None: hd.append('base=%s' % b)
    if c['hdr'][0]: hd.append('start=%d' % c['initial'])
    if c['hdr'][1]: hd.append('end=%d' % c['final'])
    rng.shuffle(hd)
    for h in hd: out.append(h + rng.choice(['\n', sep()]))
    if not out[-1].endswith('\n'): out.append('\n')
    nn, nl = '%s=%d' % (nm('n'), c['n']), '%s=%d' % (nm('l'), len(c['links']))
    out.append(rng.choice([nn + sep() + nl, nn + '\n' + nl, nl + sep() + nn, nl + '\n' + junk() + nn]) + '\n')
    body = []
    order = list(range(c['n']))
    if rng.random() < .3: rng.shuffle(order)
    for i in order:
        f = ['I=%d' % i]
        g = []
        if c['times'][i] is not None: g.append('%s=%s' % (nm('t'), c['times'][i]))
        if c['nodewords'] and c['nw'][i] is not None: g.append('%s=%s' % (nm('w'), q(c['nw'][i])))
        if rng.random() < .1: g.append('v=1')
        rng.shuffle(g)
        if g or rng.random() < .7: body.append(sep().join(f + g) + '\n')
    links = []
    for j, (s, e, w, ac, lm, tr) in enumerate(c['links']):
        g = ['%s=%d' % (nm('s'), s), '%s=%d' % (nm('e'), e)]
        if w is not None: g.append('%s=%s' % (nm('w'), q(w)))
        elif rng.random() < .5 and not c['nodewords']: g.append('%s=%s' % (nm('w'), q(rng.choice(['!NULL', '!SENT_START', '#0']))))
        if ac is not None: g.append('%s=%s' % (nm('a'), score(ac)))
        if lm is not None: g.append('%s=%s' % (nm('lm'), score(lm)))
        if rng.random() < .1: g.append('x=3')
        rng.shuffle(g)
        links.append('J=%d%s' % (j, sep()) + sep().join(g) + '\n')
    out += body + [junk()] + links
    for i in range(len(out)):
        if rng.random() < .05 and out[i].endswith('\n'): out[i] += junk()
    t = ''.join(out)
    return t if rng.random() < .8 else t.rstrip('\n')


def want_links(c):
    out = []
    for s, e, w, ac, lm, tr in c['links']:
        if c.get('nodewords'):
            w = c['nw'][e]
            if w is not None and w[0] in '!#': w = None
        out.append([s, e, w, ac, lm, ''])
    return out


def run_slf(c):
    lat = SLFLattice(io.StringIO(text(c)))
    consistent(lat)
    check(len(lat.nodes) == c['n'], 'number of nodes')
    same_links(lat.links, want_links(c), 'links of the file', 1e-5)
    for i, nd in enumerate(lat.nodes):
        check(nd.time == c['times'][i], 'time of a node', node=i, got=nd.time, want=c['times'][i])
        check(bool(nd.final) == (i == c['final']), 'final node', node=i, got=nd.final)
        for k, l in enumerate([l for l in lat.links if l.start_node is nd]):
            check(nd.out_links[k] is l, 'order of outgoing links')
    check(lat.initial_node is lat.nodes[c['initial']], 'initial node', got=lat.initial_node.id, want=c['initial'])
    check(lat.utterance_id == c['utt'], 'utterance ID', got=lat.utterance_id)
    check((lat.lm_scale is None) == (c['lm_scale'] is None) and (lat.lm_scale is None or close(float(lat.lm_scale), c['lm_scale'])), 'LM scale', got=lat.lm_scale)
    wi = c['wi']
    if wi is not None: wi = math.log(wi) if c['base'] == 0 else wi * (math.log(c['base']) if c['base'] else 1)
    check((lat.wi_penalty is None) == (wi is None) and (wi is None or close(float(lat.wi_penalty), wi)), 'word insertion penalty', got=lat.wi_penalty, want=wi)


def gen_bad(rng):
    c = gen_slf(rng)
    c['bad'] = rng.choice(['size', 'links', 'node', 'start', 'field', 'missing', 'sub', 'nodeline', 'finals'])
    c['v'] = rng.choice([-1, -2, c['n'], c['n'] + 5])
    return c


def run_bad(c):
    c = json.loads(json.dumps(c))
    b = c['bad']
    rng = random.Random(c['style'])
    if b == 'node': c['links'][rng.randrange(len(c['links']))][rng.randrange(2)] = c['v']
    if b == 'start': c['hdr'][0], c['initial'] = True, c['v']
    if b == 'finals':
        if c['nodewords']: c['nw'].append(None)
        c['times'].append(None)
        c['links'].append([c['initial'], c['n'], None, None, None, ''])
        c['n'] += 1
    t = text(c)
    lines = t.split('\n')
    if b == 'size':
        key = rng.choice(['n', 'l'])
        lines = [' '.join(f for f in x.split() if f.split('=')[0] not in NAMES[key]) if not x.startswith(('J=', 'I=', '#')) and 'UTT' not in x and 'U=' not in x else x for x in lines]
    if b == 'links':
        j = [i for i, x in enumerate(lines) if x.startswith('J=')]
        i = rng.choice(j)
        lines = lines[:i] + (lines[i + 1:] if rng.random() < .5 else [lines[i]] + lines[i:])
    if b in ('field', 'missing'):
        j = [i for i, x in enumerate(lines) if x.startswith('J=')]
        i = rng.choice(j)
        if b == 'field': lines[i] += ' oops'
        else: lines[i] = ' '.join(f for f in lines[i].split() if f.split('=')[0] not in NAMES[rng.choice('se') if False else ('s' if c['v'] < 0 else 'e')])
    if b == 'sub': lines.insert(0, 'SUBLAT=x')
    if b == 'nodeline': lines.append('I=%d t=1.0' % c['v'])
    t = '\n'.join(lines)
    try:
        lat = SLFLattice(io.StringIO(t))
    except Exception:
        return
    raise Violation('a malformed lattice is accepted: ' + b, text=t)


def run_long(c):
    n = c['n']
    t = 'UTTERANCE=u\nN=%d L=%d\n' % (n, n - 1) + ''.join('I=%d t=%d W=w%d\n' % (i, i, i) for i in range(n)) + ''.join('J=%d S=%d E=%d a=-1 l=-2\n' % (i, i, i + 1) for i in range(n - 1))
    lat = SLFLattice(io.StringIO(t))
    consistent(lat)
    same_links(lat.links, [[i, i + 1, 'w%d' % (i + 1), -1., -2., ''] for i in range(n - 1)], 'long lattice')


# --- Kaldi
KW = ['<eps>', 'a', 'b', 'c', 'yksi', 'kaksi', '#0', '<s>', '</s>', '<unk>']


def gen_kaldi(rng):
    """States are numbered; arcs [from, to|None, word ID, lm, ac, transitions]; scores may be left out."""
    n = rng.choice([1, 2, rng.randint(1, 8)])
    arcs = []
    f = lambda: rng.choice([None, 0.0, round(rng.uniform(-5, 20), 3)])
    for _ in range(rng.randint(1, 12)):
        s = rng.randrange(n)
        to = rng.randrange(n) if rng.random() < .75 else None
        arcs.append([s, to, rng.choice([0, 1, 2, 3, 4, 5, 9]), f(), f(), rng.choice(['', '', '1_2_3', '7'])])
    return {'arcs': arcs, 'utt': rng.choice(['utt-1', 'x_2']), 'style': rng.randrange(1 << 30)}


def kaldi_text(c):
    rng = random.Random(c['style'])
    out = [c['utt'] + rng.choice([' ', '', ' \n'.strip('\n')])]
    for s, to, w, lm, ac, tr in c['arcs']:
        wt = '%s,%s,%s' % ('' if lm is None else lm, '' if ac is None else ac, tr)
        if rng.random() < .3 and tr == '':
            wt = wt.rstrip(',')
            if wt == '' and to is not None: wt = ','
        head = [str(s)] + ([str(to), str(w)] if to is not None else [])
        x = rng.choice([' ', '\t', '  ']).join(head + ([wt] if wt else []))
        out.append(x + rng.choice(['', '\n', ' ']))
        if rng.random() < .1: out.append(rng.choice(['', '\n', ' ']))
    return out


def run_kaldi(c):
    lat = KaldiLattice(kaldi_text(c), list(KW))
    consistent(lat)
    n = max([a[0] for a in c['arcs']] + [a[1] for a in c['arcs'] if a[1] is not None]) + 1
    check(len(lat.nodes) == n + 1, 'number of nodes', got=len(lat.nodes), want=n + 1)
    check([bool(x.final) for x in lat.nodes] == [False] * n + [True], 'one final node, after all other nodes')
    neg = lambda x: 0.0 if x is None else -x
    want = [[s, n if to is None else to, None if to is None or KW[w] == '<eps>' else KW[w], neg(ac), neg(lm), tr] for s, to, w, lm, ac, tr in c['arcs']]
    same_links(lat.links, want, 'one link per arc line', 1e-5)
    check(lat.initial_node is lat.nodes[c['arcs'][0][0]], 'initial node')
    check(lat.utterance_id == c['utt'], 'utterance ID', got=lat.utterance_id)


def gen_kbad(rng):
    c = gen_kaldi(rng)
    c['bad'] = rng.choice(['fields', 'fields5', 'neg', 'negto', 'negword', 'word', 'symbol', 'symbol', 'symbol', 'empty', 'number'])
    c['i'] = rng.randint(0, len(c['arcs']))
    c['sym'] = rng.choice([6, 7, 8])
    return c


def run_kbad(c):
    t = [x.strip() for x in kaldi_text(c)]
    b = c['bad']
    i = min(c['i'] + 1, len(t))
    new = {'fields': '0 1 1', 'fields5': '0 1 1 0,0,1 5', 'neg': '-1 0 1 1,1,', 'negto': '0 -1 1 1,1,', 'negword': '0 1 -2 1,1,', 'word': '0 1 99 1,1,',
           'symbol': '0 1 %d 1,1,1_2' % c['sym'], 'number': '0 1 1 x,1,', 'empty': ''}[b]
    t = t[:i] + [new] + t[i:] if b != 'empty' else [t[0], '', ' ']
    try:
        KaldiLattice(t, list(KW))
    except Exception:
        return
    raise Violation('a malformed lattice is accepted: ' + b, text=t)


r = Runner('random lattices of up to 9 nodes in varied spelling; malformed variants; long chains')
r.kind('slf', gen_slf, run_slf, n=1500)
r.kind('slf malformed', gen_bad, run_bad, n=1200)
r.kind('slf long', lambda rng: {'n': rng.randint(1100, 2500)}, run_long, n=2)
r.kind('kaldi', gen_kaldi, run_kaldi, n=1500)
r.kind('kaldi malformed', gen_kbad, run_kbad, n=600)
r.main()
