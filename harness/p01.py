from common import *
import io
import numpy
from voclib import *
from theanolm.vocabulary.wordclass import WordClass


def same_voc(v, words, n, classes, mem, tol=1e-6):
    check([str(x) for x in v.id_to_word] == words, 'words in ID order', got=[str(x) for x in v.id_to_word], want=words)
    check(v.num_words() == len(words) and v.num_shortlist_words() == n and v.num_classes() == len(classes), 'sizes',
          got=[v.num_words(), v.num_shortlist_words(), v.num_classes()], want=[len(words), n, len(classes)])
    check(dict((str(k), int(x)) for k, x in v.word_to_id.items()) == {w: i for i, w in enumerate(words)}, 'word to ID mapping is the inverse')
    check(sorted(v.words()) == sorted(words), 'words()')
    cls_of = [None] * n
    for k, cl in enumerate(classes):
        for i in cl: cls_of[i] = k
    check([int(x) for x in v.word_id_to_class_id] == cls_of, 'class of every shortlist word', got=[int(x) for x in v.word_id_to_class_id], want=cls_of)
    for i in range(n):
        check(close(float(v.get_word_prob(i)), mem[i], tol), 'membership probability', word=words[i], got=float(v.get_word_prob(i)), want=mem[i])
    for k, cl in enumerate(classes):
        check(close(sum(float(v.get_word_prob(i)) for i in cl), 1.0, 1e-6), 'membership probabilities sum to one')
    for i, w in enumerate(words):
        if cls_of[i:i + 1] and len(classes[cls_of[i]]) == 1:
            check([int(x) for x in v.class_ids_to_word_ids([cls_of[i]])] == [i], 'sampling from a single-word class')
        elif i < n:
            check(int(v.class_ids_to_word_ids([cls_of[i]])[0]) in classes[cls_of[i]], 'sampling stays within the class')


def run_file(c):
    v = build(c)
    same_voc(v, *model(c))


def gen_dup(rng):
    while True:
        c = gen_voc(rng)
        if c['words']: break
    i = rng.randrange(len(c['words']))
    j = rng.randint(i + 1, len(c['words']))
    w = c['words'][i]
    c['words'].insert(j, w)
    c['cls'].insert(j, rng.choice([c['cls'][i], 99]))
    c['probs'].insert(j, 0.5)
    return c


def run_dup(c):
    try:
        build(c)
    except Exception:
        return
    raise Violation('a word listed twice is accepted', text=text(c))


def run_fields(c):
    other = {'words': 'a b', 'classes': 'a', 'srilm-classes': 'A 0.5'}[c['fmt']]
    try:
        Vocabulary.from_file(io.StringIO(text(c) + ('' if c['nl'] or not c['words'] else '\n') + other + '\n'), c['fmt'])
    except Exception:
        return
    raise Violation('a malformed line is accepted')


def gen_counts(rng):
    n = rng.choice([1, 2, rng.randint(1, 12)])
    words = ['w%d' % i for i in range(n)]
    for s in SPECIAL:
        if rng.random() < .4: words.append(s)
    rng.shuffle(words)
    hi = rng.choice([0, 1, 5, 1000])
    return {'counts': [[w, rng.randint(0, hi)] for w in words], 'k': rng.choice([None, 1, 2, 3, rng.randint(1, 14)])}


def run_counts(c):
    d = dict((w, k) for w, k in c['counts'])
    before = dict(d)
    v = Vocabulary.from_word_counts(d, c['k'])
    check(d == before, 'the table of counts is not modified')
    plain = [w for w in d if w not in SPECIAL]
    words = [str(x) for x in v.id_to_word]
    check(sorted(words) == sorted(plain + SPECIAL), 'all words and the special tokens, once', got=words)
    check(v.num_shortlist_words() == len(words), 'all words are in the shortlist')
    k = min(c['k'], len(plain)) if c['k'] else len(plain)
    check(v.num_classes() == k + 3, 'number of classes', got=v.num_classes(), want=k + 3)
    ids = [int(x) for x in v.word_id_to_class_id]
    check(sorted(set(ids)) == list(range(k + 3)), 'class IDs are consecutive', got=ids)
    classes = [[i for i in range(len(words)) if ids[i] == q] for q in range(k + 3)]
    sizes = [len(cl) for cl in classes if not any(words[i] in SPECIAL for i in cl)]
    check(all(len(cl) == 1 for cl in classes if any(words[i] in SPECIAL for i in cl)), 'special tokens have classes of their own')
    check(not sizes or max(sizes) - min(sizes) <= 1, 'words are spread evenly over the classes', got=sizes)
    mem = {}
    for cl in classes:
        t = sum(d.get(words[i], 0) for i in cl if words[i] not in SPECIAL)
        for i in cl:
            mem[i] = 1.0 if words[i] in SPECIAL else (d[words[i]] / t if t else 1.0 / len(cl))
    same_voc(v, words, len(words), classes, mem)


def gen_probs(rng):
    c = gen_voc(rng)
    words = model(c)[0]
    hi = rng.choice([0, 1, 5, 1000])
    counts = [[w, rng.randint(0, hi)] for w in words + ['zz'] if rng.random() < .8]
    return {'voc': c, 'counts': counts}


def run_probs(c):
    """Membership probabilities follow the counts after compute_probs()."""
    v = build(c['voc'])
    words, n, classes, mem = model(c['voc'])
    d = dict((w, k) for w, k in c['counts'])
    v.compute_probs(dict(d), update_class_probs=False)
    same_voc(v, words, n, classes, mem)
    v.compute_probs(dict(d), update_class_probs=True)
    cnt = [max(d.get(w, 0), 1 if w in SPECIAL else 0) for w in words]
    for cl in classes:
        t = sum(cnt[i] for i in cl)
        for i in cl: mem[i] = cnt[i] / t if t else 1.0 / len(cl)
    same_voc(v, words, n, classes, mem)


def run_init(c):
    words = [w for w in c['words']]
    wc = [WordClass(i, i, 1.0) for i in range(len(words))]
    ok = all(s in words for s in SPECIAL)
    try:
        Vocabulary(words, list(range(len(words))), wc)
        acc = True
    except ValueError:
        acc = False
    check(acc == ok, 'special tokens are required', accepted=acc)


R = Runner('random vocabulary files of all three formats (blank lines, indentation, special tokens present or not, out-of-shortlist words with duplicates), random count tables')
R.kind('file', gen_voc, run_file, n=2500)
R.kind('duplicate', gen_dup, run_dup, n=500)
R.kind('malformed', gen_voc, run_fields, n=300)
R.kind('counts', gen_counts, run_counts, n=1500)
R.kind('probs', gen_probs, run_probs, n=1500)
R.kind('init', lambda r: {'words': [w for w in SPECIAL + ['a', 'b'] if r.random() < .8]}, run_init, n=100)
if __name__ == '__main__': R.main()
