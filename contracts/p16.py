"""P16: reported text scores."""
import z3
from pyvc.types import *
from pyvc.vc import World, Loop
from pyvc.builtinsmixin import SUMR, SUMI
from contracts.vocab import *
from contracts.p03 import some_of
from contracts.rec import prefix_fn

P = 'theanolm/commands/score.py::'
ASSUMPTIONS = ['ScoringBatchIterator yields an arbitrary finite list of mini-batches (P05, P06 decide which)',
               '_merge_subwords is a function of its arguments that returns one log probability fewer than words (P15 proves this)',
               'numpy.isneginf is an uninterpreted predicate; text formatting is an injective uninterpreted function of template and values',
               'the scorer returns one list of log probabilities per sequence, one entry fewer than its words (P17)']
B = 'list[tup[mat[int],list[list[str]],mat[int]]]'
OL = 'list[opt[real]]'


def world():
    w = World()
    vocabulary(w)
    w.prefix_filters = True
    w.specfns['SOME'] = some_of
    I = z3.IntSort()
    lol = ListT(ListT(OptT(REAL)))
    sc = z3.Function('SCORES', I, lol.sort)
    w.specfns['SCORES'] = lambda vc, a, k: vc.unpack(lol, sc(vc.intt(a[0])))
    lw, lo = ListT(ListT(STR)), ListT(OptT(REAL))
    mw = z3.Function('MERGEDW', ListT(STR).sort, lo.sort, I, lw.sort)
    ml = z3.Function('MERGEDL', ListT(STR).sort, lo.sort, I, lo.sort)
    mk = lambda vc, x: vc.sterm(x) if not (x is None) else z3.IntVal(-7)
    w.specfns['MERGEDW'] = lambda vc, a, k: vc.unpack(lw, mw(vc.pack(a[0], ListT(STR)), vc.pack(a[1], lo), mk(vc, a[2])))
    w.specfns['MERGEDL'] = lambda vc, a, k: vc.unpack(lo, ml(vc.pack(a[0], ListT(STR)), vc.pack(a[1], lo), mk(vc, a[2])))
    fz = z3.Function('isneginf', z3.RealSort(), z3.BoolSort())
    w.specfns['ISNEGINF'] = lambda vc, a, k: T(BOOL, fz(vc.real(a[0])))

    def write(vc, a, k):
        o = vc.st.objs[vc.frame.vars['output_file'].oid]
        vc.call_method(o['out'], 'append', [a[0]], {})
        return None

    def score_batch(vc, a, k):
        o = vc.st.objs[vc.frame.vars['scorer'].oid]
        n = o['ncalls']
        X = dict(A0=a[0], A1=a[1], A2=a[2], A3=a[3], N=n)
        for q in ('N < len(scorer.batches)', 'eqt(A0, scorer.batches[N][0])', 'eqt(A3, scorer.batches[N][2])'):
            vc.oblige('arguments of the scorer: ' + q, vc.spec(q, X))
        o = vc.st.objs[vc.frame.vars['scorer'].oid]
        o['ncalls'] = T(INT, z3.simplify(vc.intt(n) + 1))
        return vc.unpack(lol, sc(vc.intt(n)))
    w.record('File', out='list[str]', write=FnT(write))
    w.record('Scorer', ncalls='int', batches=B, score_batch=FnT(score_batch))
    w.externals['theanolm/parsing/scoringbatchiterator.py::ScoringBatchIterator'] = lambda vc, a, k: vc.st.objs[vc.frame.vars['scorer'].oid]['batches']
    w.contract(F + '.get_class_memberships', assume_only=True, params={'word_ids': 'mat[int]'}, returns='tup[mat[int],mat[real]]', note='P02')
    def merged(vc, vars):
        args = (vc.pack(vars['subwords'], ListT(STR)), vc.pack(vars['subword_logprobs'], lo), mk(vc, vars['marking']))
        return (vc.unpack(lw, mw(*args)), vc.unpack(lo, ml(*args)))
    w.contract(P + '_merge_subwords', assume_only=True, params={'subwords': 'list[str]', 'subword_logprobs': OL},
               requires=['len(subword_logprobs) == len(subwords) - 1'], returns=merged, ensures=['len(result[1]) == len(result[0]) - 1'], note='P15')
    # per sentence, over its merged log probabilities; over the first m sentences of a mini-batch; over the first m mini-batches
    j = z3.Int('j!sum')
    BT = parse_type(B)
    none = next(i for i, t in enumerate(lo.e.alts) if t == NONE)
    x = lambda L: z3.Select(lo.arr(L), j)
    isn = lambda L: lo.e.is_alt(x(L), none)
    v = lambda L: lo.e.val(x(L), 1 - none)
    fin = lambda L: z3.And(z3.Not(isn(L)), z3.Not(fz(v(L))))
    cnt = lambda c: (lambda W, L, S: SUMI(z3.Lambda([j], z3.If(c(L), z3.IntVal(1), z3.IntVal(0))), lo.length(L)))
    per = {'num_sentences': lambda W, L, S: z3.IntVal(1), 'num_words': lambda W, L, S: lw.length(W), 'num_tokens': lambda W, L, S: ListT(STR).length(S),
           'num_probs': cnt(fin), 'num_unks': cnt(isn), 'num_zeroprobs': cnt(lambda L: z3.And(z3.Not(isn(L)), fz(v(L)))),
           'total_logprob': lambda W, L, S: SUMR(z3.Lambda([j], z3.If(fin(L), v(L), z3.RealVal(0))), lo.length(L))}
    fns = {}
    for q, f in per.items():
        rs, rt = (z3.RealSort(), REAL) if q == 'total_logprob' else (I, INT)
        one = z3.Function('ONE_' + q, lw.sort, lo.sort, ListT(STR).sort, rs)
        part = z3.Function('PART_' + q, lw.sort, lol.sort, I, I, rs)
        tot = z3.Function('TOT_' + q, z3.ArraySort(I, BT.e.sort), I, I, rs)
        zero = 0
        nn = (lambda t: [t >= 0]) if rs == I else (lambda t: [])
        w.recfns['ONE_' + q] = lambda t, f=f, nn=nn: [t == f(t.arg(0), t.arg(1), t.arg(2))] + nn(t)

        def un_part(t, one=one, part=part, nn=nn):
            W, L, mk_, m = [t.arg(i) for i in range(4)]
            sw, sl = z3.Select(lw.arr(W), m - 1), z3.Select(lol.arr(L), m - 1)
            return [z3.Implies(m <= 0, t == 0), z3.Implies(m > 0, t == part(W, L, mk_, z3.simplify(m - 1)) + one(mw(sw, sl, mk_), ml(sw, sl, mk_), sw))] + nn(t)
        w.recfns['PART_' + q] = un_part

        def un_tot(t, part=part, tot=tot, nn=nn):
            A, mk_, m = [t.arg(i) for i in range(3)]
            b1 = z3.simplify(m - 1)
            return [z3.Implies(m <= 0, t == 0), z3.Implies(m > 0, t == tot(A, mk_, b1) + part(BT.e.get(z3.Select(A, b1), 1), sc(b1), mk_, lol.length(sc(b1))))] + nn(t)
        w.recfns['TOT_' + q] = un_tot
        w.specfns['PART_' + q] = lambda vc, a, k, part=part, rt=rt: T(rt, part(vc.pack(a[0], lw), vc.pack(a[1], lol), mk(vc, a[2]), vc.intt(a[3])))
        w.specfns['TOT_' + q] = lambda vc, a, k, tot=tot, rt=rt: T(rt, tot(z3.simplify(BT.arr(vc.pack(a[0], BT))), mk(vc, a[1]), vc.intt(a[2])))
    QS = list(per)
    ALL = {k: 'TOT_%s(scorer.batches, subword_marking, len(scorer.batches))' % k for k in QS}
    REQ = ['scorer.ncalls == 0', 'len(output_file.out) == 0', 'log_base is None or SOME(log_base) >= 2',
           'forall(len(scorer.batches), lambda b: scorer.batches[b][0].shape == scorer.batches[b][2].shape and len(scorer.batches[b][1]) == scorer.batches[b][0].shape[1] and len(SCORES(b)) == len(scorer.batches[b][1]))',
           'forall(len(scorer.batches), lambda b: forall(len(scorer.batches[b][1]), lambda s: 1 <= len(scorer.batches[b][1][s]) <= scorer.batches[b][0].shape[0] and len(SCORES(b)[s]) == len(scorer.batches[b][1][s]) - 1))',
           'forall(len(scorer.batches), lambda b: forall(scorer.batches[b][0].shape[0], lambda t: forall(scorer.batches[b][0].shape[1], lambda s: iff(scorer.batches[b][2][t, s] == 1, t < len(scorer.batches[b][1][s])))))']
    LINES = [('Number of sentences: {0}\n', 'num_sentences'), ('Number of words: {0}\n', 'num_words'), ('Number of tokens: {0}\n', 'num_tokens'),
             ('Number of predicted probabilities: {0}\n', 'num_probs'), ('Number of excluded (OOV) words: {0}\n', 'num_unks'), ('Number of zero probabilities: {0}\n', 'num_zeroprobs')]
    H = '(-{0} / {1})'.format(ALL['total_logprob'], ALL['num_probs'])
    for base in (False, True):
        for mark in (None, 'word-boundary', 'prefix-affix'):
            ens = ['output_file.out[%d] == %r.format(%s)' % (i, t, ALL[k]) for i, (t, k) in enumerate(LINES)]
            ens += ['len(output_file.out) == (%d if %s > 0 else 6)' % (9 if base else 8, ALL['num_probs']),
                    '%s <= 0 or output_file.out[6] == "Cross entropy (base e): {0}\\n".format(%s)' % (ALL['num_probs'], H),
                    '%s <= 0 or output_file.out[%d] == "Perplexity: {0}\\n".format(EXP(%s))' % (ALL['num_probs'], 8 if base else 7, H)]
            if base: ens.append('%s <= 0 or output_file.out[7] == "Cross entropy (base {1}): {0}\\n".format(%s / LOG(log_base), log_base)' % (ALL['num_probs'], H))
            ty = {'total_logprob': 'real', 'num_sentences': 'int', 'num_tokens': 'int', 'num_words': 'int', 'num_probs': 'int', 'num_unks': 'int', 'num_zeroprobs': 'int'}
            out = ['len(output_file.out) == 0']
            w.contract(P + '_score_text', variant='%s%s' % (mark, ' log base' if base else ''),
                       params={'input_file': 'opaque', 'vocabulary': w.records['Vocabulary'], 'scorer': w.records['Scorer'], 'output_file': w.records['File'],
                               'log_base': (lambda vc: T(INT, vc.fresh('log_base', I))) if base else 'none', 'subword_marking': (lambda vc, m=mark: m), 'word_level': lambda vc: False},
                       requires=[r for r in REQ if 'log_base' not in r] + (['LOG(log_base) != 0'] if base else []), modifies=['output_file.out', 'scorer.ncalls'],
                       ensures=ens,
                       loops=[Loop(types=dict(ty), inv=['scorer.ncalls == _k'] + out + ['%s == TOT_%s(scorer.batches, subword_marking, _k)' % (k, k) for k in QS]),
                              Loop(types=dict(ty), inv=out + ['%s == entry(%s) + PART_%s(scorer.batches[scorer.ncalls - 1][1], SCORES(scorer.ncalls - 1), subword_marking, _k)' % (k, k, k) for k in QS]), None])
    # word-level output: one line per word after the first, whatever the history it shows
    w.contract(F + '.__contains__', params={'word': 'str'}, returns='bool', ensures=['iff(result, word in self.word_to_id)'])
    w.contract(F + '.in_shortlist', params={'word_id': 'int'}, returns='bool', ensures=['iff(result, word_id < len(self.word_id_to_class_id))'])
    INFO = '({0} + ":OOV" if {0} not in vocabulary.word_to_id else {0} + ":shortlist" if vocabulary.word_to_id[{0}] < len(vocabulary.word_id_to_class_id) else {0} + ":OOS")'
    hf = z3.Function('HISTOF', I, I)
    w.specfns['HISTOF'] = lambda vc, a, k: T(STR, hf(vc.sterm(a[0])))
    f3, f4 = z3.Function('fmt_str_str_str_3', I, I, I, I, I), z3.Function('fmt_str_str_real_str_4', I, I, I, z3.RealSort(), I, I)
    i1, i2, i3, i4, r1 = z3.Int('i1!h'), z3.Int('i2!h'), z3.Int('i3!h'), z3.Int('i4!h'), z3.Real('r1!h')
    w.axioms += [z3.ForAll([i1, i2, i3, i4], hf(f3(i1, i2, i3, i4)) == i3, patterns=[f3(i1, i2, i3, i4)]),
                 z3.ForAll([i1, i2, i3, r1, i4], hf(f4(i1, i2, i3, r1, i4)) == i3, patterns=[f4(i1, i2, i3, r1, i4)])]
    LINE = ('(output_file.out[p] == ("p({{0}} | {{1}}) is not predicted  [{{2}}]\\n".format({p}, HISTOF({o}), {n}) if {l}[{i}] is None else '
            '"log(p({{0}} | {{1}})) = {{2}}  [{{3}}]\\n".format({p}, HISTOF({o}), {v}, {n})))')
    pw = 'words[p - len(old(output_file.out)) + 1]'
    ix = 'p - len(old(output_file.out))'
    line = lambda l, v: LINE.format(i=ix, o='output_file.out[p]', p=pw, n=INFO.format(pw), l=l, v=v)
    w.contract(P + '_write_word_scores', variant='words',
               params={'vocabulary': w.records['Vocabulary'], 'words': 'list[str]', 'logprobs': OL, 'output_file': w.records['File'], 'log_scale': 'real'},
               requires=['log_scale != 0'], raises={'ValueError': 'len(logprobs) != len(words) - 1'}, modifies=['output_file.out'],
               ensures=['len(output_file.out) == len(old(output_file.out)) + len(words) - 1',
                        'forall(len(old(output_file.out)), lambda i: output_file.out[i] == old(output_file.out)[i])',
                        'forall(len(old(output_file.out)), len(output_file.out), lambda p: %s)' % line('old(logprobs)', 'SOME(old(logprobs)[%s]) / log_scale' % ix)],
               loops=[Loop(inv=['len(output_file.out) == len(old(output_file.out)) + _k',
                                'forall(len(old(output_file.out)), lambda i: output_file.out[i] == old(output_file.out)[i])',
                                'forall(len(old(output_file.out)), len(output_file.out), lambda p: %s)' % line('logprobs', 'SOME(logprobs[%s])' % ix)])])
    # one score per utterance
    ol = OptT(REAL)
    ls = z3.Function('LINESCORE', I, ol.sort)
    oni = next(i for i, t in enumerate(ol.alts) if t == NONE)
    w.specfns['LINESCORE'] = lambda vc, a, k: vc.unpack(ol, ls(vc.sterm(a[0])))
    w.records['Scorer'].attrs['score_line'] = FnT(lambda vc, a, k: vc.unpack(ol, ls(vc.sterm(a[0]))))
    w.records['Scorer'].attrs.update(num_words=INT, num_unks=INT)
    cn = prefix_fn(w, 'SCORED', ['list[str]'], 'int', 0, lambda A, k, g: g(cn, k) + z3.If(ol.is_alt(ls(z3.Select(A[0], k)), oni), 0, 1), nonneg=True)
    for base in (False, True):
        sc_ = 'LOG(log_base)' if base else '1'
        inv = lambda n: ['len(output_file.out) == SCORED(input_file, %s)' % n,
                         'forall(%s, lambda i: SCORED(input_file, i) <= len(output_file.out))' % n,
                         'forall(%s, lambda i: LINESCORE(input_file[i]) is None or (SCORED(input_file, i) < len(output_file.out) and output_file.out[SCORED(input_file, i)] == str(SOME(LINESCORE(input_file[i])) / %s) + "\\n"))' % (n, sc_)]
        w.contract(P + '_score_utterances', variant='log base' if base else 'natural logarithm',
                   params={'input_file': 'list[str]', 'vocabulary': w.records['Vocabulary'], 'scorer': w.records['Scorer'], 'output_file': w.records['File'],
                           'log_base': (lambda vc: T(INT, vc.fresh('log_base', I))) if base else 'none'},
                   requires=['len(output_file.out) == 0'] + (['LOG(log_base) != 0'] if base else []), modifies=['output_file.out'],
                   ensures=inv('len(input_file)'), loops=[Loop(inv=inv('_k'))])
    return w
