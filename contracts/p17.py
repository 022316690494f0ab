"""P17: text scoring."""
import z3
from pyvc.types import *
from pyvc.vc import World, Loop, BuiltinV
from contracts.vocab import *
from contracts import tm
from contracts.p03 import some_of

S = 'theanolm/scoring/textscorer.py::TextScorer'
ASSUMPTIONS = tm.ASSUMPTIONS + ['log probabilities in the proved contracts are finite; zero probabilities and invalid numbers are covered by the bounded stand-in',
                                'str.split is an uninterpreted deterministic function']


def network(oos):
    def make(vc):
        r = vc.new_record(RecT('Net', {}), 'network')
        a = vc.st.objs[r.oid]
        a['vocabulary'] = vc.fresh_value(vc.world.records['Vocabulary'], 'vocabulary')
        for n in ('input_word_ids', 'input_class_ids', 'target_class_ids', 'mask'):
            a[n] = tm.fresh_nd(vc, 2, INT, n)
        a['is_training'] = T(INT, vc.fresh('is_training', z3.IntSort()))
        a['oos_logprobs'] = tm.fresh_nd(vc, 1, REAL, 'oos_logprobs') if oos else None
        a['TP'] = tm.fresh_nd(vc, 2, REAL, 'target_probs')
        a['target_probs'] = BuiltinV('target_probs', lambda vc, b, k: a_(vc, r, 'TP'))
        return r
    return make


def a_(vc, r, n): return vc.st.objs[r.oid][n]


def fn_call(outs):
    """A compiled function: remembers its arguments, returns arbitrary results."""
    def call(vc, a, k):
        me = vc.frame.vars['self']
        for i, x in enumerate(a): vc.st.objs[me.oid]['arg%d' % i] = vc.freeze(x)
        return outs(vc, a, me)
    return call


def matrices(vc, a, me):
    mp = vc.content(a[2])
    lp, nm = tm.fresh_nd(vc, 2, REAL, 'LP'), tm.fresh_nd(vc, 2, INT, 'NM')
    for x in (lp, nm):
        for d in range(2): vc.assume(tm.zint(x.shape[d]) == tm.zint(mp.shape[d]))
    vc.st.objs[me.oid]['LPm'], vc.st.objs[me.oid]['NMm'] = lp, nm
    return (vc.new_cell(lp), vc.new_cell(nm))


UF = 'theanolm/parsing/functions.py::utterance_from_line'


UW = 'line.rstrip().split()'
US, UE = '(0 if {0}[0] == "<s>" else 1)'.format(UW), '(0 if {0}[len({0}) - 1] == "</s>" else 1)'.format(UW)
# the words of a line with sentence start and end, and their number
UTT = '({s} + len({w}) + {e})'.format(w=UW, s=US, e=UE)
UTTAT = '("<s>" if {{0}} < {s} else {w}[{{0}} - {s}] if {{0}} - {s} < len({w}) else "</s>")'.format(w=UW, s=US)


def utterance(w):
    w.contract(UF, params={'line': 'str'}, returns='list[str]',
               ensures=['iff(len(result) == 0, line.rstrip() == "")', 'len(result) == 0 or (len(result) >= 1 and result[0] == "<s>" and result[len(result) - 1] == "</s>")',
                        'len(result) == 0 or len(result) == ' + UTT,
                        'forall(len(result), lambda i: result[i] == %s)' % UTTAT.format('i')])


def world():
    w = World()
    vocabulary(w)
    tm.theano(w)
    w.specfns['SOME'] = some_of
    w.record('Net')
    w.record('TextScorer', S, _vocabulary=w.records['Vocabulary'], _unk_id='int', num_words='int', num_unks='int',
             _target_logprobs_function=FnT(fn_call(matrices)))
    w.contract(F + '.num_words', returns='int', ensures=['result == len(self.id_to_word)'])
    w.contract(F + '.num_shortlist_words', returns='int', ensures=['result == len(self.word_id_to_class_id)'])
    w.contract(F + '.num_classes', returns='int', ensures=['result == len(self._word_classes)'])
    for sl in (False, True):
        for oos in (False, True):
            for ex in (False, True):
                f, g = 'self._target_logprobs_function', 'self._total_logprob_function'
                use = sl and oos
                i = 't, s'
                n = lambda f: 'FOUT({0}, 0).shape[0]'.format(f) if False else '(FIN(%s, 0).shape[0] - 1)' % f
                fa = lambda f, b: 'forall(%s, lambda t: forall(FIN(%s, 0).shape[1], lambda s: %s))' % (n(f), f, b)
                W1 = 'FIN({f}, 0)[t + 1, s]'
                NM = 'FIN({f}, 3)[t, s] * (1 if {c} else 0)'.format(f='{f}', c=(W1 + ' != self._unk_id') if use else (
                    W1 + ' != self._unk_id and ' + W1 + ' < len(network.vocabulary.word_id_to_class_id)') if ex else 'True')
                LP = 'LOG(network.TP[t, s]) + LOG(FIN({f}, 2)[t, s])' + (' + network.oos_logprobs[%s]' % W1 if use else '')
                giv = lambda f: [x.format(f=f) for x in (
                    'ISVAR(FIN({f}, 3), network.mask)', 'GIVEN({f}, network.is_training) == 0')] + [
                    fa(f, ('implies(FIN({f}, 1).shape[0] == FIN({f}, 0).shape[0] and FIN({f}, 1).shape[1] == FIN({f}, 0).shape[1], GIVEN({f}, network.input_word_ids)[t, s] == (self._unk_id if FIN({f}, 0)[t, s] >= len(network.vocabulary.word_id_to_class_id) else FIN({f}, 0)[t, s]) and '
                           'GIVEN({f}, network.input_class_ids)[t, s] == FIN({f}, 1)[t, s] and GIVEN({f}, network.target_class_ids)[t, s] == FIN({f}, 1)[t + 1, s])').format(f=f))]
                w.contract(S + '.__init__', variant='%s%s%s' % ('shortlist ' if sl else '', 'unigrams ' if oos else '', 'exclude' if ex else ''),
                           params={'network': network(oos), 'use_shortlist': lambda vc, sl=sl: sl, 'exclude_unk': lambda vc, ex=ex: ex, 'profile': 'bool'},
                           requires=['"<unk>" in network.vocabulary.word_to_id', 'network.mask.shape[0] >= 1',
                                     'forall(network.mask.shape[0], lambda t: forall(network.mask.shape[1], lambda s: network.mask[t, s] == 0 or network.mask[t, s] == 1))'],
                           opts={'tensor': True, 'init': True}, modifies=['self._vocabulary', 'self._unk_id', 'self.num_words', 'self.num_unks'],
                           ensures=['self._unk_id == network.vocabulary.word_to_id["<unk>"] and self.num_words == 0 and self.num_unks == 0',
                                    fa(f, 'FOUT({f}, 1)[t, s] == {m}'.format(f=f, m=NM.format(f=f))),
                                    fa(f, 'implies(FOUT({f}, 1)[t, s] == 1, FOUT({f}, 0)[t, s] == {lp})'.format(f=f, lp=LP.format(f=f))),
                                    'FOUT({f}, 0) == SUM(FOUT({h}, 1).shape[0], lambda t: SUM(FOUT({h}, 1).shape[1], lambda s: ite({m} != 0 and FIN({f}, 2)[t, s] != 0, {lp}, 0)))'.format(
                                        f=g, h=f, m=NM.format(f=g), lp=LP.format(f=g)),
                                    'FOUT({f}, 1) == SUM(FOUT({h}, 1).shape[0], lambda t: SUM(FOUT({h}, 1).shape[1], lambda s: ({m}) * (1 if FIN({f}, 2)[t, s] != 0 else 0)))'.format(
                                        f=g, h=f, m=NM.format(f=g))] + giv(f) + giv(g))
    # mini-batches: the mask is one on the first LENOF(s) rows of column s
    lenof = z3.Function('LENOF', z3.IntSort(), z3.IntSort())
    w.specfns['LENOF'] = lambda vc, a, k: T(INT, lenof(vc.intt(a[0])))
    w.prefix_filters = True
    MASK = ['mask.shape == word_ids.shape and class_ids.shape == word_ids.shape and membership_probs.shape == word_ids.shape',
            'forall(mask.shape[1], lambda s: 1 <= LENOF(s) <= mask.shape[0])',
            'forall(mask.shape[0], lambda t: forall(mask.shape[1], lambda s: iff(mask[t, s] == 1, t < LENOF(s))))']
    ARGS = lambda m: ['forall(%s.shape[0], lambda t: forall(%s.shape[1], lambda s: self.arg0[t, s] == word_ids[t, s] and self.arg1[t, s] == class_ids[t, s]))' % ('word_ids', 'word_ids'),
            'self.arg2.shape[0] == word_ids.shape[0] - 1 and self.arg3.shape[0] == word_ids.shape[0] - 1',
            'forall(word_ids.shape[0] - 1, lambda t: forall(word_ids.shape[1], lambda s: self.arg2[t, s] == membership_probs[t + 1, s]%s))' % m]
    w.contract(S + '.score_batch', params={'word_ids': 'mat[int]', 'class_ids': 'mat[int]', 'membership_probs': 'mat[real]', 'mask': 'mat[int]'},
               requires=MASK + ['mask.shape[0] >= 1'], returns='list[list[opt[real]]]', locals={'result': 'list[list[opt[real]]]'},
               ensures=ARGS(' and self.arg3[t, s] == mask[t + 1, s]') + ['len(result) == word_ids.shape[1]',
                        'forall(len(result), lambda s: len(result[s]) == LENOF(s) - 1)',
                        'forall(len(result), lambda s: forall(LENOF(s) - 1, lambda t: iff(result[s][t] is None, self.NMm[t, s] != 1) and implies(result[s][t] is not None, SOME(result[s][t]) == self.LPm[t, s])))'],
               loops=[Loop(types={'result': 'list[list[opt[real]]]', 'seq_mask': 'vec[int]', 'seq_logprobs': 'list[opt[real]]'}, inv=['len(result) == _k', 'forall(_k, lambda s: len(result[s]) == LENOF(s) - 1)',
                        'forall(_k, lambda s: forall(LENOF(s) - 1, lambda t: iff(result[s][t] is None, self.NMm[t, s] != 1) and implies(result[s][t] is not None, SOME(result[s][t]) == self.LPm[t, s])))'])])
    # totals: the j-th call of the compiled function returns the total TLP(j) over TNW(j) words
    tlp, tnw = z3.Function('TLP', z3.IntSort(), z3.RealSort()), z3.Function('TNW', z3.IntSort(), z3.IntSort())
    w.specfns['TLP'] = lambda vc, a, k: T(REAL, tlp(vc.intt(a[0])))
    w.specfns['TNW'] = lambda vc, a, k: T(INT, tnw(vc.intt(a[0])))

    B0 = 'batch_iter[N][0]'
    KW = '({0} if {0} < len(self._vocabulary.word_id_to_class_id) else self._vocabulary.word_to_id["<unk>"])'
    CALL = ['N < len(batch_iter) and A0.shape == {0}.shape and A1.shape == {0}.shape and A2.shape[0] == {0}.shape[0] - 1 and A3.shape[0] == {0}.shape[0] - 1 and A2.shape[1] == {0}.shape[1] and A3.shape[1] == {0}.shape[1]'.format(B0),
            'forall({0}.shape[0], lambda t: forall({0}.shape[1], lambda s: A0[t, s] == {0}[t, s] and A1[t, s] == self._vocabulary.word_id_to_class_id[{1}]))'.format(B0, KW.format(B0 + '[t, s]')),
            'forall({0}.shape[0] - 1, lambda t: forall({0}.shape[1], lambda s: A3[t, s] == batch_iter[N][2][t + 1, s]))'.format(B0),
            'forall({0}.shape[0] - 1, lambda t: forall({0}.shape[1], lambda s: A2[t, s] == self._vocabulary._word_classes[self._vocabulary.word_id_to_class_id[{1}]]._probs[{1}]))'.format(B0, KW.format(B0 + '[t + 1, s]'))]

    def totals(vc, a, me):
        o = vc.st.objs[me.oid]
        n = vc.intt(o['ncalls'])
        if 'batch_iter' in vc.frame.vars:
            # the call gets the n-th mini-batch, its classes, and memberships and mask without the first time step
            X = {'A%d' % i: x for i, x in enumerate(a)}
            X['N'] = T(INT, n)
            for q in CALL: vc.oblige('arguments of the compiled function: ' + q[:60], vc.spec(q, X))
        vc.st.objs[me.oid]['ncalls'] = T(INT, z3.simplify(n + 1))
        return (T(REAL, tlp(n)), T(INT, tnw(n)))
    w.records['TextScorer'].attrs['_total_logprob_function'] = FnT(fn_call(totals))
    w.records['TextScorer'].attrs['ncalls'] = INT
    for n, e in (('arg0', INT), ('arg1', INT), ('arg2', REAL), ('arg3', INT)): w.records['TextScorer'].attrs[n] = NDT(e, 2)
    ARGN = ['self.ncalls', 'self.arg0', 'self.arg1', 'self.arg2', 'self.arg3']
    MAT = {'word_ids': 'mat[int]', 'class_ids': 'mat[int]', 'membership_probs': 'mat[real]', 'mask': 'mat[int]'}
    w.contract(S + '._debug_log_batch', assume_only=True, params={k: 'opaque' for k in MAT}, note='writes to the debug log')
    IN = '(word_ids[{0}] if word_ids[{0}] < len(self.word_id_to_class_id) else self.word_to_id["<unk>"])'
    VOC = ['"<unk>" in {0}.word_to_id', '0 <= {0}.word_to_id["<unk>"] < len({0}.word_id_to_class_id)', MEMBER]
    lookup_contracts(w)
    for nd, ix in ((1, 'i'), (2, 'i, j')):
        fa2 = (lambda b: 'forall(word_ids.shape[0], lambda i: %s)' % b) if nd == 1 else (
            lambda b: 'forall(word_ids.shape[0], lambda i: forall(word_ids.shape[1], lambda j: %s))' % b)
        i = IN.format(ix)
        ty = {1: 'vec', 2: 'mat'}[nd]
        w.contract(F + '.get_class_memberships', variant=ty, params={'word_ids': ty + '[int]'}, returns='tup[%s[int],%s[real]]' % (ty, ty),
                   requires=[x.format('self') for x in VOC] + [fa2('0 <= word_ids[%s]' % ix)],
                   ensures=['result[0].shape == word_ids.shape', 'result[1].shape == word_ids.shape',
                            fa2('result[0][%s] == self.word_id_to_class_id[%s]' % (ix, i)),
                            fa2('result[1][%s] == self._word_classes[self.word_id_to_class_id[%s]]._probs[%s]' % (ix, i, i))])
    w.select[F + '.get_class_memberships'] = lambda vc, a, k: {1: 'vec', 2: 'mat'}.get(len(vc.content(a[-1]).shape), '')
    v = 'self._vocabulary'
    VREQ = [x.format(v).replace('self.word', v + '.word').replace('self._word_classes', v + '._word_classes') for x in VOC]
    b = 'batch_iter[j]'
    BAD = 'ISNAN(TLP({0})) or ISNEGINF(TLP({0})) or TLP({0}) > 0'
    for nm in ('isnan', 'isneginf'):
        fz = z3.Function(nm, z3.RealSort(), z3.BoolSort())
        w.specfns[nm.upper()] = lambda vc, a, k, fz=fz: T(BOOL, fz(vc.real(a[0])))
    w.contract(S + '.compute_perplexity', modifies=ARGN, params={'batch_iter': 'list[tup[mat[int],opaque,mat[int]]]'}, returns='real',
               requires=VREQ + ['self.ncalls == 0', 'forall(len(batch_iter), lambda j: {0}[0].shape == {0}[2].shape and {0}[0].shape[0] >= 1)'.format(b),
                                'forall(len(batch_iter), lambda j: forall({0}[0].shape[0], lambda t: forall({0}[0].shape[1], lambda s: 0 <= {0}[0][t, s])))'.format(b),
                                'forall(len(batch_iter), lambda j: TNW(j) >= 0)'],
               raises={'NumberError': 'exists(len(batch_iter), lambda j: %s)' % BAD.format('j'),
                       'ValueError': 'forall(len(batch_iter), lambda j: not (%s)) and SUM(len(batch_iter), lambda j: TNW(j)) == 0' % BAD.format('j')},
               ensures=['self.ncalls == len(batch_iter)', 'result == EXP(-SUM(len(batch_iter), lambda j: TLP(j)) / SUM(len(batch_iter), lambda j: TNW(j)))'],
               loops=[Loop(inv=['self.ncalls == _k', 'logprob == SUM(_k, lambda j: TLP(j))', 'num_words == SUM(_k, lambda j: TNW(j))',
                                'forall(_k, lambda j: not (%s))' % BAD.format('j')], types={'logprob': 'real', 'num_words': 'int'})])
    # a single sequence
    SEQ = {'word_ids': 'vec[int]', 'class_ids': 'vec[int]', 'membership_probs': 'vec[real]'}
    w.contract(S + '.score_sequence', params=SEQ, modifies=ARGN, returns='real',
               requires=['self.ncalls == 0', 'len(word_ids) >= 1', 'len(class_ids) == len(word_ids) and len(membership_probs) == len(word_ids)'],
               raises={'NumberError': BAD.format('0')},
               ensures=['result == TLP(0)', 'self.ncalls == 1', 'self.arg0.shape[0] == len(word_ids) and self.arg0.shape[1] == 1 and self.arg1.shape[0] == len(word_ids) and self.arg1.shape[1] == 1',
                        'self.arg2.shape[0] == len(word_ids) - 1 and self.arg2.shape[1] == 1 and self.arg3.shape[0] == len(word_ids) - 1 and self.arg3.shape[1] == 1',
                        'forall(len(word_ids), lambda t: self.arg0[t, 0] == word_ids[t] and self.arg1[t, 0] == class_ids[t])',
                        'forall(len(word_ids) - 1, lambda t: self.arg2[t, 0] == membership_probs[t + 1] and self.arg3[t, 0] == 1)'])
    # a line of text
    utterance(w)
    IDV = '(vocabulary.word_to_id[{0}] if {0} in vocabulary.word_to_id else vocabulary.word_to_id["<unk>"])'
    w.contract(F + '.words_to_ids', params={'words': 'list[str]'}, requires=['"<unk>" in self.word_to_id'], returns='vec[int]',
               ensures=['len(result) == len(words)', 'forall(words, lambda i: result[i] == %s)' % IDV.format('words[i]').replace('vocabulary', 'self')],
               loops=[Loop(inv=['len(result) == len(words)', 'forall(_k, lambda i: result[i] == %s)' % IDV.format('words[i]').replace('vocabulary', 'self')])])
    KV = '({0} if {0} < len(vocabulary.word_id_to_class_id) else vocabulary.word_to_id["<unk>"])'
    w.contract(S + '.score_line', modifies=ARGN + ['self.num_words', 'self.num_unks'], params={'line': 'str', 'vocabulary': w.records['Vocabulary']}, returns='opt[real]', opts={'cost': 20},
               requires=['self.ncalls == 0', 'forall("str", lambda x: implies(x in vocabulary.word_to_id, vocabulary.word_to_id[x] >= 0))'] + [x.format('vocabulary').replace('self.', 'vocabulary.') for x in VOC],
               raises={'NumberError': 'line.rstrip() != "" and (%s)' % BAD.format('0')},
               ensures=['iff(result is None, line.rstrip() == "")', 'result is None or (SOME(result) == TLP(0) and self.ncalls == 1)',
                        'result is None or self.arg0.shape[0] == {0} and self.arg1.shape[0] == {0} and self.arg2.shape[0] == {0} - 1 and self.arg3.shape[0] == {0} - 1'.format(UTT),
                        'result is None or forall({0}, lambda t: self.arg0[t, 0] == {1})'.format(UTT, IDV.format(UTTAT.format('t'))),
                        'result is None or forall({0}, lambda t: self.arg1[t, 0] == vocabulary.word_id_to_class_id[{1}])'.format(UTT, KV.format('self.arg0[t, 0]')),
                        'result is None or forall({0} - 1, lambda t: self.arg3[t, 0] == 1 and self.arg2[t, 0] == vocabulary._word_classes[vocabulary.word_id_to_class_id[{1}]]._probs[{1}])'.format(UTT, KV.format('self.arg0[t + 1, 0]'))])
    return w
