from common import *
import io
import os
import sys
import tempfile
import shutil
from theanolm.scoring.latticebatch import LatticeBatch
from theanolm.scoring.kaldilattice import read_kaldi_vocabulary

SLF = 'VERSION=1.1\nUTTERANCE="%s"\nN=2\tL=1\nI=0\tt=0\nI=1\tt=1\nJ=0\tS=0\tE=1\tW=w\ta=-1\tl=-1\n'
BLANK = ['', ' ', '\t', '  \t ']


def gen(rng):
    n = rng.choice([0, 1, 2, rng.randint(0, 12), rng.randint(5, 40)])
    names = []
    for i in range(n):
        r = rng.random()
        names.append('' if r < .1 else ('  ' if r < .15 else 'f%d' % rng.randrange(max(1, n))))
    k = rng.randint(0, n)
    jobs = rng.choice([1, 1, 2, 3, rng.randint(1, 15)])
    return {'names': names, 'k': k, 'list': rng.random() < .7, 'jobs': jobs, 'nl': rng.random() < .5, 'pad': rng.random() < .3}


def batch_ids(b):
    out = []
    for l in b: out.append(l.utterance_id)
    return out


def run_jobs(c):
    d = tempfile.mkdtemp()
    si = sys.stdin
    try:
        for x in set(c['names']) - {'', '  '}:
            open(os.path.join(d, x), 'w').write(SLF % x)
        path = lambda x: os.path.join(d, x) if x.strip() else x
        cl = c['names'][:c['k']] if c['list'] else c['names']
        ll = c['names'][c['k']:] if c['list'] else []
        allp = [x for x in cl + ll if x.strip()]
        seen = []
        for j in range(c['jobs']):
            lf = None
            if c['list']:
                txt = '\n'.join((' %s ' % path(x) if c['pad'] else path(x)) for x in ll)
                if ll and c['nl']: txt += '\n'
                lf = io.StringIO(txt)
            sys.stdin = type('S', (), {'buffer': io.BytesIO((SLF % 'stdin').encode())})()
            b = LatticeBatch([path(x) for x in cl], lf, 'slf', None, c['jobs'], j)
            got = batch_ids(b)
            want = (allp or ['stdin'])[j::c['jobs']]
            check(got == want, 'lattices of job %d' % j, got=got, want=want)
            seen += got
        check(sorted(seen) == sorted(allp or ['stdin']), 'all jobs together')
        for jobs, j in ((c['jobs'], -1), (c['jobs'], c['jobs']), (0, 0), (-1, 0), (-2, -3), (c['jobs'], c['jobs'] + 5)):
            check(raises(ValueError, LatticeBatch, ['x'], None, 'slf', None, jobs, j), 'invalid job number is rejected', jobs=jobs, job=j)
    finally:
        sys.stdin = si
        shutil.rmtree(d)


def gen_kaldi(rng):
    files = []
    for f in range(rng.randint(1, 3)):
        blocks = [[rng.randint(1, 4) for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(0, 4))]
        seps = [[rng.choice(BLANK) for _ in range(rng.randint(1, 3))] for _ in blocks]
        files.append({'lead': [rng.choice(BLANK) for _ in range(rng.choice([0, 0, 1, 2]))], 'blocks': blocks, 'seps': seps,
                      'end': rng.choice(['none', 'newline', 'blank', 'blanknonl'])})
    nw = rng.randint(5, 9)
    order = list(range(nw))
    rng.shuffle(order)
    return {'files': files, 'nw': nw, 'order': order, 'blanks': rng.random() < .3}


def run_kaldi(c):
    words = ['<eps>'] + ['w%d' % i for i in range(1, c['nw'])]
    lines = ['%s %d\n' % (words[i], i) for i in c['order']]
    if c['blanks']: lines.insert(2, '\n')
    voc = lambda: io.StringIO(''.join(lines))
    wid = read_kaldi_vocabulary(voc())
    check(dict(wid) == {w: i for i, w in enumerate(words)}, 'word table', got=dict(wid))
    check(raises(Exception, read_kaldi_vocabulary, io.StringIO('a 1 2\n')), 'malformed word table is rejected')
    check(raises(Exception, read_kaldi_vocabulary, io.StringIO('a 0\nb\n')), 'malformed word table is rejected')
    check(raises(ValueError, LatticeBatch, ['x'], None, 'kaldi', None), 'word table is required')
    check(raises(ValueError, LatticeBatch, ['x'], None, 'htk', None), 'format is checked')
    d = tempfile.mkdtemp()
    try:
        paths, want = [], []
        for fi, f in enumerate(c['files']):
            out = list(f['lead'])
            for bi, (blk, sep) in enumerate(zip(f['blocks'], f['seps'])):
                out.append('utt-%d-%d' % (fi, bi))
                for s, w in enumerate(blk): out.append('%d %d %d 1.5,%d,1_2' % (s, s + 1, w, s))
                out.append('%d 0.5,0.25,' % len(blk))
                want.append(('utt-%d-%d' % (fi, bi), [words[w] for w in blk]))
                out += sep if bi + 1 < len(f['blocks']) else {'none': [], 'newline': [''], 'blank': sep + [''], 'blanknonl': sep + [' ']}[f['end']]
            p = os.path.join(d, 'l%d' % fi)
            open(p, 'w').write('\n'.join(out))
            paths.append(p)
        b = LatticeBatch(list(paths), None, 'kaldi', voc())
        got = []
        for l in b:
            ws, node = [], l.initial_node
            while not node.final:
                check(len(node.out_links) == 1, 'links of %s' % l.utterance_id)
                ws.append(node.out_links[0].word)
                node = node.out_links[0].end_node
            got.append((l.utterance_id, ws[:-1]))
        check(got == want, 'lattices of the file', got=got, want=want)
        wi = b.kaldi_word_to_id
        check(dict(wi) == dict(wid), 'table for writing')
    finally:
        shutil.rmtree(d)


R = Runner('random path lists over command line and list file, 1..15 jobs; random multi-lattice Kaldi files and word tables')
R.kind('jobs', gen, run_jobs, n=400)
R.kind('kaldi', gen_kaldi, run_kaldi, n=600)
if __name__ == '__main__': R.main()
