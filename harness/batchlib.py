"""Text files and what reading them should give."""
import io

WORDS = ['a', 'b', 'c', 'd', 'ä', '<unk>', '<s>', '</s>', 'xx', 'q1']


def gen_line(rng):
    if rng.random() < .15: return rng.choice(['', ' ', '\t'])
    n = rng.choice([1, 1, 2, 3, rng.randint(1, 9)])
    l = [rng.choice(WORDS) for _ in range(n)]
    r = rng.random()
    if r < .2: l = ['<s>'] + l
    elif r < .4: l = l + ['</s>']
    elif r < .55: l = ['<s>'] + l + ['</s>']
    elif r < .6: l = rng.choice([['<s>'], ['</s>'], ['<s>', '</s>'], ['<s>', '<s>']])
    return rng.choice(['', '', ' ']) + rng.choice([' ', ' ', '  ', '\t']).join(l) + rng.choice(['', '', '  '])


def gen_files(rng, maxf=4, maxl=7, minl=0):
    fs = []
    for _ in range(rng.randint(1, maxf)):
        n = rng.choice([minl, 1, rng.randint(minl, maxl), rng.randint(minl, maxl)])
        lines = [gen_line(rng) for _ in range(n)]
        t = '\n'.join(lines)
        if lines and rng.random() < .7: t += '\n'
        fs.append(t)
    return fs


def lines_of(text):
    """Lines with their newline, as a file object gives them."""
    out = text.split('\n')
    r = [x + '\n' for x in out[:-1]]
    if out[-1]: r.append(out[-1])
    return r


def words_of(line):
    ws = line.split()
    if not ws: return []
    if ws[0] != '<s>': ws = ['<s>'] + ws
    if ws[-1] != '</s>': ws = ws + ['</s>']
    return ws


def pieces(ws, m):
    if m is None: return [ws]
    return [ws[i:i + m] for i in range(0, len(ws), m)]


def sequences(files, m):
    r = []
    for fi, t in enumerate(files):
        for l in lines_of(t):
            r += [[(w, fi) for w in p] for p in pieces(words_of(l), m) if len(p) >= 2]
    return r


def batches(seqs, b):
    return [seqs[i:i + b] for i in range(0, len(seqs), b)]
