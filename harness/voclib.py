"""Random vocabularies and what the file says about them."""
import io
from theanolm.vocabulary import Vocabulary

SPECIAL = ['<s>', '</s>', '<unk>']


def gen_voc(rng, maxw=12, oos=True):
    fmt = rng.choice(['words', 'classes', 'srilm-classes'])
    pool = ['w%d' % i for i in range(maxw + 6)] + SPECIAL + ['<w>', 'ä', 'the+', '+n']
    rng.shuffle(pool)
    n = rng.choice([0, 1, rng.randint(0, maxw), rng.randint(0, maxw)])
    words = pool[:n]
    if rng.random() < .3: words = [w for w in words if w not in SPECIAL]
    ncls = rng.choice([1, 2, 3, max(1, n)])
    cls = [rng.choice(range(ncls)) * 7 + rng.choice([0, 0, 3]) for _ in words]
    probs = [rng.choice([1.0, 0.5, 0.25, round(rng.uniform(.01, 1), 3)]) for _ in words]
    if rng.random() < .3 and len(set(cls)) < len(cls):
        # a zero probability next to a positive one
        for i in range(len(words)):
            if any(cls[j] == cls[i] and j != i and probs[j] > 0 for j in range(len(words))) and rng.random() < .5:
                probs[i] = 0.0
    extra = None
    if oos and rng.random() < .7:
        extra = [rng.choice(pool) for _ in range(rng.randint(0, 8))]
        if rng.random() < .6: extra = list(dict.fromkeys(extra))
    return {'fmt': fmt, 'words': words, 'cls': cls, 'probs': probs, 'oos': extra, 'blank': rng.random() < .3, 'nl': rng.random() < .8,
            'indent': rng.random() < .2}


def text(c):
    out = []
    for w, k, p in zip(c['words'], c['cls'], c['probs']):
        if c['fmt'] == 'words': l = w
        elif c['fmt'] == 'classes': l = '%s\t%d' % (w, k)
        else: l = 'CLASS%d %s %s' % (k, p, w)
        out.append(' ' + l + '  ' if c['indent'] else l)
        if c['blank']: out.append(' ' if c['indent'] else '')
    t = '\n'.join(out)
    return t + '\n' if out and c['nl'] else t


def build(c):
    return Vocabulary.from_file(io.StringIO(text(c)), c['fmt'], c['oos'])


def model(c):
    """(words in ID order, number of shortlist words, class members as lists of word IDs in order, membership by word ID)"""
    words = list(c['words'])
    classes, prob, name = [], {}, {}
    for i, (w, k, p) in enumerate(zip(c['words'], c['cls'], c['probs'])):
        if c['fmt'] == 'words' or k not in name:
            if c['fmt'] != 'words': name[k] = len(classes)
            classes.append([])
            ci = len(classes) - 1
        else: ci = name[k]
        classes[ci].append(i)
        prob[i] = p if c['fmt'] == 'srilm-classes' else 1.0
    for s in SPECIAL:
        if s not in words:
            classes.append([len(words)])
            prob[len(words)] = 1.0
            words.append(s)
    n = len(words)
    for w in c['oos'] or []:
        if w not in words: words.append(w)
    mem = {}
    for cl in classes:
        t = sum(prob[i] for i in cl)
        for i in cl: mem[i] = prob[i] / t
    return words, n, classes, mem
