from common import *
import numpy
from voclib import *


def gen(rng):
    c = gen_voc(rng)
    words, n, classes, mem = model(c)
    pool = words + ['zzz', 'W1', '', ' ', '<UNK>', 'qq']
    shape = rng.choice([[rng.randint(1, 7)], [rng.randint(1, 4), rng.randint(1, 4)], [1, 1], [2, 2, 2]])
    m = 1
    for s in shape: m *= s
    return {'voc': c, 'text': [rng.choice(pool) for _ in range(rng.randint(0, 15))], 'shape': shape,
            'ids': [rng.randrange(len(words)) for _ in range(m)], 'dt': rng.choice(['int64', 'int32', 'uint32'])}


def run(c):
    v = build(c['voc'])
    words, n, classes, mem = model(c['voc'])
    ix = {w: i for i, w in enumerate(words)}
    got = v.words_to_ids(list(c['text']))
    want = [ix.get(w, ix['<unk>']) for w in c['text']]
    check([int(x) for x in got] == want, 'word IDs', got=[int(x) for x in got], want=want)
    got2 = v.words_to_ids(tuple(c['text']))
    check([int(x) for x in got2] == want, 'word IDs of a tuple')
    for w in set(c['text']): check((w in v) == (w in ix), 'membership test', word=w)
    a = numpy.array(c['ids'], dtype=c['dt']).reshape(c['shape'])
    b = a.copy()
    cids, probs = v.get_class_memberships(a)
    check(numpy.array_equal(a, b), 'argument is not modified')
    check(cids.shape == a.shape and probs.shape == a.shape, 'shape', got=[list(cids.shape), list(probs.shape)])
    cls_of = {i: k for k, cl in enumerate(classes) for i in cl}
    for i in numpy.ndindex(*a.shape):
        w = int(a[i]) if a[i] < n else ix['<unk>']
        check(int(cids[i]) == cls_of[w] and close(float(probs[i]), mem[w], 1e-6), 'class membership', id=int(a[i]), got=[int(cids[i]), float(probs[i])], want=[cls_of[w], mem[w]])
    for i in range(len(words)):
        check(bool(v.in_shortlist(i)) == (i < n), 'in_shortlist', id=i)
        if i < n: check(close(float(v.get_word_prob(i)), mem[i], 1e-6), 'get_word_prob', id=i)
    check(v.num_words() == len(words) and v.num_shortlist_words() == n and v.num_classes() == len(classes), 'sizes')


R = Runner('random vocabularies of all three formats with out-of-shortlist words; random texts and ID arrays of 1-3 dimensions')
R.kind('lookup', gen, run, n=3000)
if __name__ == '__main__': R.main()
