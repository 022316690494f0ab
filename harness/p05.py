"""P05: linear reading."""
import io, os, mmap, tempfile, bz2, gzip
from common import *
from batchlib import *
from theanolm.parsing import LinearBatchIterator, ScoringBatchIterator, utterance_from_line
from theanolm.vocabulary import Vocabulary

VOC = Vocabulary.from_file(io.StringIO('a\nb\nc\nd\nä\nxx\n'), 'words', ['q1'])
R = Runner('random files of sentences, read linearly in batches')


class Spy:
    """Remembers the sequences a batch was made from."""
    def _prepare_batch(self, sequences):
        return [[(str(w), int(f)) for w, f in s] for s in sequences]


class Lin(Spy, LinearBatchIterator): pass
class Sco(Spy, ScoringBatchIterator): pass


def gen(rng):
    big = rng.random() < .1
    return {'files': gen_files(rng, 4, 40 if big else 7), 'b': rng.choice([1, 2, 3, 5, 32]), 'm': rng.choice([None, None, 1, 2, 3, 4, 7, 100]),
            'how': rng.choice(['text', 'text', 'bytes', 'file', 'same']), 'len': rng.random() < .5, 'cls': rng.choice(['lin', 'sco']), 'passes': rng.choice([2, 3])}


def opened(c, d):
    if c['how'] == 'text': return [io.StringIO(t) for t in c['files']]
    if c['how'] == 'bytes': return [io.BytesIO(t.encode('utf-8')) for t in c['files']]
    if c['how'] == 'same':
        f = io.StringIO(c['files'][0])
        return [f for _ in c['files']]
    fs = []
    for i, t in enumerate(c['files']):
        p = os.path.join(d, 'f%d' % i)
        with open(p, 'w', encoding='utf-8') as f: f.write(t)
        fs.append(open(p, encoding='utf-8'))
    return fs


def run(c):
    with tempfile.TemporaryDirectory() as d:
        fs = opened(c, d)
        files = [c['files'][0]] * len(c['files']) if c['how'] == 'same' else c['files']
        try:
            it = (Lin if c['cls'] == 'lin' else Sco)(fs if len(fs) > 1 or c['len'] else fs[0], VOC, batch_size=c['b'], max_sequence_length=c['m'])
            want = batches([[(w, f) for w, f in s] for s in sequences(files, c['m'])], c['b'])
            if c['len']: check(len(it) == len(want), 'number of batches', got=len(it), want=len(want))
            for k in range(c['passes']):
                got = []
                for x in it:
                    got.append(x)
                    if len(got) > len(want) + 5: break
                check(got == want, 'batches of pass %d' % k, got=got[:8], want=want[:8])
                if c['len'] and k == 0: check(len(it) == len(want), 'number of batches after a pass')
        finally:
            for f in fs: f.close()


R.kind('read', gen, run, 4, fixed=[{'files': ['', 'a b\n', '', '\n\n c', ''], 'b': 2, 'm': None, 'how': 'text', 'len': True, 'cls': 'lin', 'passes': 3},
                                    {'files': ['a b c d a b\n'], 'b': 2, 'm': 3, 'how': 'text', 'len': True, 'cls': 'lin', 'passes': 2},
                                    {'files': ['<s> </s>\n<s>\n</s>\n'], 'b': 1, 'm': None, 'how': 'bytes', 'len': True, 'cls': 'lin', 'passes': 2},
                                    {'files': ['a\n' * 10], 'b': 5, 'm': None, 'how': 'file', 'len': True, 'cls': 'sco', 'passes': 2}])


def gen_l(rng): return gen_line(rng) + rng.choice(['', '\n', '\r\n'])


def run_l(l):
    check(list(utterance_from_line(l)) == words_of(l), 'words of the line', got=utterance_from_line(l))
    check(list(utterance_from_line(l.encode('utf-8'))) == words_of(l), 'words of the encoded line')


R.kind('line', gen_l, run_l, 1)
if __name__ == '__main__': R.main()
