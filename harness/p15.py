from common import *
from theanolm.commands import score as S

NEG = float('-inf')


def toks(rng, pool):
    n = rng.choice([0, 1, 2, 3, 5, 8, rng.randint(4, 20)])
    ws = [rng.choice(['<s>', rng.choice(pool)])] + [rng.choice(pool) for _ in range(n)]
    if rng.random() < .5: ws.append('</s>')
    lps = [rng.choice([None, round(-rng.random() * 9, 3), round(-rng.random() * 9, 3), round(-rng.random() * 9, 3), NEG if rng.random() < .2 else -1.5]) for _ in ws[1:]]
    return ws, [str(x) if x == NEG else x for x in lps]


def gen(rng):
    m = rng.choice([None, 'word-boundary', 'prefix-affix', 'prefix-affix', 'word-boundary', 'other'])
    pool = {'word-boundary': ['<w>', '<w>', 'a', 'b', '<unk>', '+a', 'cc'], 'prefix-affix': ['a', 'a+', '+a', '+a+', '+', 'b+', '+b', '<unk>', '<w>']}.get(m, ['a', 'b+', '+c', '<w>', '<unk>'])
    ws, lps = toks(rng, pool)
    bad = rng.choice([0] * 15 + [1, -1])
    if bad == 1: lps.append(-1.0)
    if bad == -1: lps = lps[:-1]
    return {'m': m, 'w': ws, 'lp': lps}


def total(xs):
    if any(x is None for x in xs): return None
    return sum(xs)


def expect(m, ws, lps):
    """Independent reading of the property: segment the sequence, then sum."""
    if m is None: return ws, lps
    words, out = [[ws[0]]], []
    n = len(ws)
    if m == 'prefix-affix':
        starts = [i for i in range(1, n) if i == 1 or not (ws[i - 1].endswith('+') and ws[i].startswith('+'))]
        for a, b in zip(starts, starts[1:] + [n]):
            words.append(ws[a:b])
            out.append(total(lps[a - 1:b - 1]))
    else:
        i = 1
        while i < n:
            if ws[i] == '<w>':
                i += 1
                continue
            j = i
            while j < n and ws[j] != '<w>': j += 1
            words.append(['<unk>'] if '<unk>' in ws[i:j] else ws[i:j])
            out.append(total(lps[i - 1:min(j, n - 1)]))
            i = j + 1
    return words, out


def run(c):
    ws, lps = list(c['w']), [NEG if x == '-inf' else x for x in c['lp']]
    f = S._merge_subwords
    if len(lps) != len(ws) - 1 or c['m'] == 'other':
        check(raises(ValueError, f, ws, lps, c['m']), 'length mismatch or unknown marking is rejected')
        return
    w, l = f(list(ws), list(lps), c['m'])
    ew, el = expect(c['m'], ws, lps)
    check(len(l) == len(w) - 1, 'one log probability fewer than words', got=[w, [str(x) for x in l]])
    check([list(x) if isinstance(x, (list, tuple)) else x for x in w] == ew, 'words', got=w, want=ew)
    check(len(l) == len(el) and all((a is None) == (b is None) and (a is None or close(a, b)) for a, b in zip(l, el)), 'log probabilities',
          got=[str(x) for x in l], want=[str(x) for x in el])


R = Runner('random token sequences over small alphabets with markers, <unk>, missing and infinite log probabilities; oracle segments the sequence first and sums afterwards')
R.kind('merge', gen, run, n=20000)
if __name__ == '__main__': R.main()
