from common import *
import io, math, re, zlib
import numpy
from voclib import gen_voc, build, model
import p15
from theanolm.commands import score as S

NEG = float('-inf')


def gen(rng):
    voc = gen_voc(rng, 7)
    m = rng.choice([None, None, 'word-boundary', 'prefix-affix'])
    pool = model(voc)[0] + ['zzz', 'oov', '<unk>'] + {'word-boundary': ['<w>'] * 4, 'prefix-affix': ['the+', '+n', '+n+', 'x+']}.get(m, [])
    lines = []
    for _ in range(rng.choice([0, 1, 2, 5, 16, 17, 33, 20])):
        k = rng.choice([0, 1, 2, 3, 5, 9])
        ws = [rng.choice(pool) for _ in range(k)]
        if ws and rng.random() < .2: ws.insert(0, '<s>')
        if ws and rng.random() < .2: ws.append('</s>')
        if m == 'word-boundary' and ws and rng.random() < .6: ws.append('<w>')
        lines.append(rng.choice(['', ' ', '']) .join(['', ' '.join(ws)]) + rng.choice(['', ' ', '\t']))
    return {'voc': voc, 'm': m, 'lines': lines, 'nl': rng.random() < .7, 'base': rng.choice([None, None, 2, 10, 7]), 'words': rng.random() < .6,
            'none': rng.choice([0, 20, 60]), 'zero': rng.choice([0, 0, 15])}


class Scorer:
    """Scores are a function of the words up to the scored one."""
    def __init__(self, c, v):
        self.c, self.v, self.seen = c, v, []
        self.num_words = self.num_unks = 0

    def lp(self, ids, t):
        h = zlib.crc32(repr([int(x) for x in ids[:t + 1]]).encode()) % 1000
        if h % 100 < self.c['none']: return None
        if (h // 7) % 100 < self.c['zero']: return NEG
        return -0.01 - h / 100.0

    def score_batch(self, word_ids, class_ids, membership_probs, mask):
        ci, mp = self.v.get_class_memberships(word_ids)
        check(numpy.array_equal(ci, class_ids) and numpy.array_equal(mp, membership_probs), 'classes and membership probabilities of the mini-batch are passed to the scorer')
        out = []
        for s in range(word_ids.shape[1]):
            ids = [int(w) for w, m in zip(word_ids[:, s], mask[:, s]) if m == 1]
            self.seen.append(ids)
            out.append([numpy.float64(x) if x is not None else None for x in (self.lp(ids, t) for t in range(1, len(ids)))])
        return out

    def score_line(self, line, v):
        check(v is self.v, 'vocabulary')
        ws = frame(line)
        if not ws: return None
        return self.lp([zlib.crc32(w.encode()) for w in ws], len(ws)) or -1.25


def frame(line):
    ws = line.split()
    if not ws: return []
    if ws[0] != '<s>': ws = ['<s>'] + ws
    if ws[-1] != '</s>': ws = ws + ['</s>']
    return ws


def setup(c):
    v = build(c['voc'])
    txt = '\n'.join(c['lines'])
    return v, Scorer(c, v), io.StringIO(txt + '\n' if c['nl'] and c['lines'] else txt), io.StringIO()


def field(out, name, cast):
    r = re.findall('^' + re.escape(name) + r': (.*)$', out, re.M)
    check(len(r) == 1, 'exactly one line reports: ' + name, got=r)
    return cast(r[0])


def run(c):
    v, sc, inp, o = setup(c)
    words = model(c['voc'])[0]
    n = model(c['voc'])[1]
    pos = {w: i for i, w in enumerate(words)}
    with numpy.errstate(all='ignore'):
        S._score_text(inp, v, sc, o, c['base'], c['m'], c['words'])
    out = o.getvalue()
    sents = [ws for ws in (frame(l) for l in c['lines']) if len(ws) >= 2]
    tot, tok, nw, npr, nun, nz = 0.0, 0, 0, 0, 0, 0
    ids = [[pos.get(w, pos['<unk>']) for w in ws] for ws in sents]
    check(sc.seen == ids, 'every sentence is scored once, in order', got=sc.seen, want=ids)
    per = []
    for ws, i in zip(sents, ids):
        lps = [sc.lp(i, t) for t in range(1, len(i))]
        mw, ml = p15.expect(c['m'], ws, lps)
        per.append((mw, ml))
        tok += len(ws)
        nw += len(mw)
        tot += sum(x for x in ml if x is not None and x != NEG)
        npr += sum(1 for x in ml if x is not None and x != NEG)
        nun += sum(1 for x in ml if x is None)
        nz += sum(1 for x in ml if x == NEG)
    got = [field(out, x, int) for x in ('Number of sentences', 'Number of words', 'Number of tokens', 'Number of predicted probabilities', 'Number of excluded (OOV) words', 'Number of zero probabilities')]
    check(got == [len(sents), nw, tok, npr, nun, nz], 'counts of sentences, words, tokens, probabilities, excluded words, zero probabilities', got=got, want=[len(sents), nw, tok, npr, nun, nz])
    if npr:
        H = -tot / npr
        g = field(out, 'Cross entropy (base e)', float)
        check(close(g, H), 'cross entropy', got=g, want=H)
        if c['base'] is not None:
            g = field(out, 'Cross entropy (base %d)' % c['base'], float)
            check(close(g, H / math.log(c['base'])), 'cross entropy in the requested base', got=g, want=H / math.log(c['base']))
        g = field(out, 'Perplexity', float)
        check(close(g, math.exp(H)), 'perplexity', got=g, want=math.exp(H))
    if c['words']:
        rows = [l for l in out.split('\n') if l.startswith('p(') or l.startswith('log(p(')]
        want = []
        for mw, ml in per:
            for w, lp in zip(mw[1:], ml):
                w = [w] if isinstance(w, str) else w
                info = ' '.join(x + (':OOV' if x not in pos else ':shortlist' if pos[x] < n else ':OOS') for x in w)
                want.append((' '.join(w), None if lp is None else lp / (math.log(c['base']) if c['base'] else 1.0), info))
        check(len(rows) == len(want), 'one line per word after the first', got=len(rows), want=len(want))
        for r, (w, lp, info) in zip(rows, want):
            check(r.startswith(('p(' if lp is None else 'log(p(') + w + ' | '), 'predicted word', got=r, want=w)
            check(r.endswith('  [' + info + ']'), 'in the shortlist, out of the shortlist, or out of the vocabulary', got=r, want=info)
            if lp is None: check(' is not predicted  [' in r, 'not predicted', got=r)
            else:
                x = float(r[:-len(info) - 4].rsplit(' = ', 1)[1])
                check(close(x, lp), 'log probability in the requested base', got=r, want=lp)
        heads = [l for l in out.split('\n') if l.startswith('Sentence perplexity')]
        fin = [[x for x in ml if x is not None and x != NEG] for mw, ml in per]
        vals = [float(l.split(': ')[1]) for l in heads]
        exp = [math.exp(-sum(x) / len(x)) for x in fin if x]
        if len(vals) == len(fin): vals = [a for a, x in zip(vals, fin) if x]
        check(len(vals) == len(exp) and all(close(a, b) for a, b in zip(vals, exp)), 'sentence perplexity', got=vals, want=exp)


def run_utt(c):
    v, sc, inp, o = setup(c)
    S._score_utterances(inp, v, sc, o, c['base'])
    want = [sc.score_line(l, v) / (math.log(c['base']) if c['base'] else 1.0) for l in c['lines'] if l.split()]
    got = [float(x) for x in o.getvalue().split('\n') if x]
    check(len(got) == len(want) and all(close(a, b) for a, b in zip(got, want)), 'one score per non-empty line, in the requested base', got=[str(x) for x in got], want=[str(x) for x in want])


R = Runner('random vocabularies and texts of up to 33 lines, all subword markings and log bases, a scorer whose scores are a hash of the history with missing and infinite values; oracle recounts from the text')
R.kind('text', gen, run, weight=3, n=2500)
R.kind('utterances', gen, run_utt, n=500)
if __name__ == '__main__': R.main()
