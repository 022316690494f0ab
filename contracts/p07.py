"""P07: shuffled reading."""
import z3
from pyvc.types import *
from pyvc.vc import World, Loop, BuiltinV
from contracts import h5

P = 'theanolm/parsing/'
FS = P + 'functions.py::find_sentence_starts'
SP = P + 'shufflingbatchiterator.py::SentencePointers'
SH = P + 'shufflingbatchiterator.py::ShufflingBatchIterator'
ASSUMPTIONS = h5.ASSUMPTIONS + ['mapped data: len is the number of bytes, find gives the first newline at or after a position or -1; reading a line from a position gives the line that starts there',
                                'numpy.random.choice returns the requested number of elements of the population, without repeating a position unless replace is set; shuffle permutes the array; the numbers themselves are arbitrary',
                                'sampling fractions are real numbers; round() returns a nearest integer and is deterministic',
                                'BAG is an abstraction of the multiset of array elements that every permutation preserves']
I, Bo = z3.IntSort(), z3.BoolSort()


def data(w):
    nl, n, cnt, start, nst = (z3.Function(x, *s) for x, s in (('NLAT', (I, I, Bo)), ('DLEN', (I, I)), ('NLCNT', (I, I, I)), ('START', (I, I, I)), ('NSTART', (I, I))))
    line = z3.Function('LINEAT', I, I, I)
    d, i = z3.Ints('d!s i!s')
    # the k-th line starts right after the k-th newline, unless that is the end of the data
    w.axioms += [z3.ForAll([d], z3.And(n(d) >= 0, cnt(d, 0) == 0, start(d, 0) == 0), patterns=[n(d)]),
                 z3.ForAll([d, i], z3.Implies(z3.And(0 <= i, nl(d, i)), start(d, cnt(d, i) + 1) == i + 1), patterns=[nl(d, i)]),
                 z3.ForAll([d], nst(d) == 1 + z3.If(n(d) >= 1, cnt(d, n(d) - 1), 0), patterns=[nst(d)])]
    w.recfns['NLCNT'] = lambda t: [z3.Implies(t.arg(1) <= 0, t == 0), z3.Implies(t.arg(1) > 0, t == cnt(t.arg(0), z3.simplify(t.arg(1) - 1)) + z3.If(nl(t.arg(0), z3.simplify(t.arg(1) - 1)), 1, 0)), t >= 0]
    w.heap_class('Data', 'Data', pos='int')
    sp = lambda f, ty: (lambda vc, a, k: T(ty, f(*([a[0].t] + [vc.intt(x) for x in a[1:]]))))
    w.specfns.update(NLAT=sp(nl, BOOL), DLEN=sp(n, INT), NLCNT=sp(cnt, INT), START=sp(start, INT), NSTART=sp(nst, INT), LINEAT=sp(line, STR))

    def find(vc, o, a, k):
        # the number of newlines does not change where there are none
        lo = vc.intt(a[1]) if len(a) > 1 else z3.IntVal(0)
        if len(a) > 2 or a[0] != 'bytes:\n': raise Unsupported('find')
        vc.oblige('find: position', lo >= 0)
        r = vc.fresh('found', I)
        q = z3.Int('q!f')
        none = lambda hi: z3.ForAll([q], z3.Implies(z3.And(lo <= q, q < hi), z3.Not(nl(o.t, q))), patterns=[nl(o.t, q)])
        vc.assume(z3.Or(z3.And(r == -1, none(n(o.t)), z3.Implies(lo <= n(o.t), cnt(o.t, n(o.t)) == cnt(o.t, lo)), z3.Implies(lo < n(o.t), cnt(o.t, n(o.t) - 1) == cnt(o.t, lo))),
                        z3.And(lo <= r, r < n(o.t), nl(o.t, r), none(r), cnt(o.t, r) == cnt(o.t, lo), cnt(o.t, r + 1) == cnt(o.t, lo) + 1)))
        return T(INT, r)
    w.ref_methods['Data', 'find'] = find
    w.ref_methods['Data', '__len__'] = lambda vc, o, a, k: T(INT, n(o.t))

    def seek(vc, o, a, k):
        vc.set_field(o.t, 'Data', 'pos', a[0])

    def readline(vc, o, a, k):
        p = vc.get_field(o.t, 'Data', 'pos').t
        q = vc.fresh('pos', I)
        vc.assume(q >= p)
        vc.set_field(o.t, 'Data', 'pos', T(INT, q))
        return T(STR, line(o.t, p))
    w.ref_methods['Data', 'seek'], w.ref_methods['Data', 'readline'] = seek, readline


def world():
    w = World()
    data(w)
    w.contract(FS, params={'data': 'ref[Data]'}, returns='list[int]',
               ensures=['len(result) == NSTART(data)', 'forall(len(result), lambda j: result[j] == START(data, j))',
                        # nothing but line starts, and all of them
                        'forall(len(result), lambda j: result[j] == 0 or (0 < result[j] < DLEN(data) and NLAT(data, result[j] - 1)))',
                        'forall(DLEN(data) - 1, lambda i: not NLAT(data, i) or (0 <= NLCNT(data, i) + 1 < len(result) and result[NLCNT(data, i) + 1] == i + 1))'],
               loops=[Loop(inv=['0 <= pos', 'pos <= DLEN(data)', 'len(result) == 1 + NLCNT(data, pos if pos < DLEN(data) else pos - 1 if pos > 0 else 0)',
                                'forall(len(result), lambda j: result[j] == START(data, j))', 'result[0] == 0', 'pos == 0 or NLAT(data, pos - 1)',
                                'forall(len(result), lambda j: result[j] == 0 or (0 < result[j] < DLEN(data) and NLAT(data, result[j] - 1)))',
                                'forall(DLEN(data) - 1, lambda i: i >= pos or not NLAT(data, i) or (0 <= NLCNT(data, i) + 1 < len(result) and result[NLCNT(data, i) + 1] == i + 1))'])])
    # pointers to all lines of all files
    w.heap_class('InFile', 'InFile', name='str', MAP='ref[Data]')
    w.ref_methods['InFile', 'fileno'] = lambda vc, o, a, k: o

    def mapped(vc, a, k):
        d = vc.get_field(a[0].t, 'InFile', 'MAP')
        vc.assume(z3.Function('DLEN', I, I)(d.t) > 0)
        return d
    w.externals['mmap.mmap'] = mapped
    w.externals['mmap.PROT_READ'] = 1
    w.externals['sys.stdout.flush'] = lambda vc, a, k: None
    w.record('NewPointers', SP)
    w.record('Pointers', SP, mmaps='list[ref[Data]]', pointers='list[tup[int,int]]', pointer_ranges='list[tup[int,int]]')
    ok = lambda k, maps: ['len(self.mmaps) == %s and len(self.pointer_ranges) == %s' % (k, k),
          'forall(%s, lambda f: same(self.mmaps[f], %s))' % (k, maps),
          'forall({k}, lambda f: 0 <= self.pointer_ranges[f][0] and self.pointer_ranges[f][1] == self.pointer_ranges[f][0] + NSTART({m}) and self.pointer_ranges[f][1] <= len(self.pointers) and '
          'self.pointer_ranges[f][0] == (self.pointer_ranges[f - 1][1] if f > 0 else 0))'.format(k=k, m=maps),
          'len(self.pointers) == (self.pointer_ranges[{k} - 1][1] if {k} > 0 else 0)'.format(k=k),
          'forall({k}, lambda f: forall(self.pointer_ranges[f][0], self.pointer_ranges[f][1], lambda p: self.pointers[p][0] == f and self.pointers[p][1] == START({m}, p - self.pointer_ranges[f][0])))'.format(k=k, m=maps)]
    w.contract(SP + '.__init__', params={'files': 'list[ref[InFile]]'}, opts={'init': True, 'self_rec': 'NewPointers', 'cost': 5}, ensures=ok('len(files)', 'files[f].MAP'),
               loops=[Loop(inv=ok('_k', 'files[f].MAP'), types={'.mmaps': 'list[ref[Data]]', '.pointers': 'list[tup[int,int]]', '.pointer_ranges': 'list[tup[int,int]]'})])
    # one epoch
    w.contract(SP + '.__getitem__', params={'sentence_index': 'int'}, returns='tup[ref[Data],int]', opts={'self_rec': 'Pointers'},
               requires=['0 <= sentence_index < len(self.pointers)', '0 <= self.pointers[sentence_index][0] < len(self.mmaps)'],
               ensures=['same(result[0], self.mmaps[self.pointers[sentence_index][0]])', 'result[1] == self.pointers[sentence_index][1]'])
    bag = z3.Function('BAG', z3.ArraySort(I, I), I, I)
    LV = parse_type('list[vec[int]]')
    bagcat, catlen = z3.Function('BAGCAT', LV.sort, I), z3.Function('CATLEN', LV.sort, I)

    def cat(vc, a, k):
        t = vc.pack(a[0], LV)
        r = vc.fresh_value(parse_type('vec[int]'), 'concatenated')
        c = vc.content(r)
        vc.require(LV.length(t) > 0, 'ValueError', 'concatenate of nothing')
        vc.assume(z3.And(bag(vec(vc, r), zi(c.shape[0])) == bagcat(t), zi(c.shape[0]) == catlen(t)))
        return r

    def zi(x): return z3.IntVal(x) if isinstance(x, int) else x

    def vec(vc, v):
        return parse_type('vec[int]').arr(vc.pack(v, parse_type('vec[int]')))

    def shuffle(vc, a, k):
        c = vc.content(a[0])
        b, n = bag(vec(vc, a[0]), zi(c.shape[0])), zi(c.shape[0])
        r = vc.content(vc.fresh_value(parse_type('vec[int]'), 'shuffled'))
        r = NDArr(c.shape, r.e, r.at, r.arr)
        vc.store(a[0].loc, r)
        vc.assume(bag(vec(vc, a[0]), n) == b)

    def choice(vc, a, k):
        pop = vc.content(a[0])
        n = vc.intt(a[1] if len(a) > 1 else k['size'])
        rep = k.get('replace', a[2] if len(a) > 2 else True)
        rep = vc.truth(rep)
        m = zi(pop.shape[0])
        vc.require(z3.And(n >= 0, z3.Or(n == 0, m > 0), z3.Or(rep, n <= m)), 'ValueError', 'size of the sample')
        r = vc.content(vc.fresh_value(parse_type('vec[int]'), 'sample'))
        idx = z3.Function('chosen!%d' % next(vc.counter), I, I)
        i, j = z3.Ints('i!ch j!ch')
        vc.assume(zi(r.shape[0]) == n)
        vc.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= idx(i), idx(i) < m, r.at(i) == pop.at(idx(i))))))
        vc.assume(z3.Or(rep, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), idx(i) != idx(j)))))
        return vc.new_cell(NDArr((n,), INT, r.at, r.arr))
    w.externals['numpy.concatenate'] = cat
    w.externals['numpy.random.shuffle'] = shuffle
    w.externals['numpy.random.choice'] = choice
    w.specfns['BAG'] = lambda vc, a, k: T(INT, bag(vec(vc, a[0]), zi(vc.content(a[0]).shape[0])))
    w.specfns['BAGCAT'] = lambda vc, a, k: T(INT, bagcat(vc.pack(a[0], LV)))
    w.record('Shuffled', SH, _sentence_pointers=w.records['Pointers'], _sample_sizes='list[int]', _next_line='int', _order='vec[int]', _buffer='list[tup[str,int]]', _end_of_file='bool')
    PR, SS = 'self._sentence_pointers.pointer_ranges', 'self._sample_sizes'
    ranges = 'forall(len({p}), lambda f: {p}[f][0] < {p}[f][1])'.format(p=PR)
    chosen = lambda k: ['len(samples) == %s' % k,
                        # as many lines of each file as requested, of that file, and without duplicates unless more are needed than there are
                        'forall({k}, lambda f: len(samples[f]) == {s}[f] and forall({s}[f], lambda i: {p}[f][0] <= samples[f][i] < {p}[f][1]))'.format(k=k, s=SS, p=PR),
                        'forall({k}, lambda f: {s}[f] > {p}[f][1] - {p}[f][0] or forall({s}[f], lambda i: forall(i, lambda j: samples[f][i] != samples[f][j])))'.format(k=k, s=SS, p=PR)]
    w.contract(SH + '._reset', variant='shuffle', params={'shuffle': lambda vc: True}, requires=['len({p}) == len({s}) and len({p}) >= 1'.format(p=PR, s=SS), ranges, 'forall(len({s}), lambda f: {s}[f] >= 0)'.format(s=SS)],
               modifies=['self._next_line', 'self._order'], locals={'samples': 'list[vec[int]]'}, opts={'self_rec': 'Shuffled', 'expose_locals': True, 'cost': 5},
               ensures=['self._next_line == 0'] + chosen('len(%s)' % PR) + ['BAG(self._order) == BAGCAT(samples)'],
               loops=[Loop(inv=chosen('_k'), types={'samples': 'list[vec[int]]'}), Loop(inv=['BAG(self._order) == BAGCAT(samples)'])])
    w.contract(SH + '._reset', variant='as called', params={'shuffle': lambda vc: True}, requires=['len({p}) == len({s}) and len({p}) >= 1'.format(p=PR, s=SS), ranges, 'forall(len({s}), lambda f: {s}[f] >= 0)'.format(s=SS)],
               modifies=['self._next_line', 'self._order'], locals={'samples': 'list[vec[int]]'}, opts={'self_rec': 'Shuffled', 'cost': 5},
               ensures=['self._next_line == 0'],
               loops=[Loop(inv=chosen('_k'), types={'samples': 'list[vec[int]]'}), Loop(inv=['BAG(self._order) == BAGCAT(samples)'])])
    w.contract(SH + '._reset', variant='rewind', params={'shuffle': lambda vc: False}, modifies=['self._next_line'], opts={'self_rec': 'Shuffled'},
               ensures=['self._next_line == 0', 'eqt(self._order, old(self._order))'])
    Q = 'self._sentence_pointers.pointers[self._order[old(self._next_line)]]'
    w.contract(SH + '._readline', returns='opt[tup[str,int]]', modifies=['self._next_line', 'Data.pos'], opts={'self_rec': 'Shuffled'},
               requires=['0 <= self._next_line', 'forall(len(self._order), lambda i: 0 <= self._order[i] < len(self._sentence_pointers.pointers))',
                         'forall(len(self._sentence_pointers.pointers), lambda p: 0 <= self._sentence_pointers.pointers[p][0] < len(self._sentence_pointers.mmaps))'],
               ensures=['iff(result is None, old(self._next_line) >= len(self._order))', 'self._next_line == old(self._next_line) + (0 if result is None else 1)',
                        'result is None or (result[1] == {q}[0] and result[0] == LINEAT(self._sentence_pointers.mmaps[{q}[0]], {q}[1]))'.format(q=Q)])
    # sample sizes
    w.record('NewShuffled', SH)
    w.contract(P + 'batchiterator.py::BatchIterator.__init__', assume_only=True, params={'vocabulary': 'opaque', 'batch_size': 'int', 'max_sequence_length': 'opt[int]', 'map_oos_to_unk': 'bool'})

    rnd = z3.Function('py_round', z3.RealSort(), I)
    w.specfns['ROUND'] = lambda vc, a, k: T(INT, rnd(vc.real(a[0])))
    w.select[SH + '._reset'] = lambda vc, a, k: 'as called' if len(a) <= 1 and not k else ''
    def pointers(vc, a, k):
        p = vc.fresh_value(vc.world.records['Pointers'], 'sentence_pointers')
        o = vc.st.objs[p.oid]
        f = z3.Int('f!pt')
        X = {'P': p, 'FILES': a[0]}
        # what SentencePointers.__init__ is proved to establish
        for q in ('len(P.pointer_ranges) == len(FILES)', 'forall(len(FILES), lambda f: P.pointer_ranges[f][0] < P.pointer_ranges[f][1])'): vc.assume(vc.spec(q, X))
        return p
    w.externals[SP] = pointers
    w.specfns['POS'] = lambda vc, a, k: T(INT, zi(vc.content(a[0].cell)[1]))
    size = 'ROUND((sampling[f] if f < len(sampling) else 1) * ({p}[f][1] - {p}[f][0]))'.format(p=PR)
    w.contract(SH + '.__init__', params={'input_files': 'list[ref[InFile]]', 'sampling': 'list[real]', 'vocabulary': 'opaque', 'batch_size': 'int', 'max_sequence_length': 'opt[int]', 'map_oos_to_unk': 'bool'},
               requires=['len(input_files) >= 1', 'forall(len(sampling), lambda f: sampling[f] >= 0)'], opts={'init': True, 'self_rec': 'NewShuffled', 'cost': 5},
               ensures=['len({s}) == len(input_files)'.format(s=SS), 'forall(len(input_files), lambda f: {s}[f] == {z})'.format(s=SS, z=size), 'self._next_line == 0'],
               loops=[Loop(inv=['POS(fraction_iter) == (_k if _k < len(sampling) else len(sampling))', 'len({s}) == _k'.format(s=SS), 'forall(_k, lambda f: {s}[f] == {z} and {s}[f] >= 0)'.format(s=SS, z=size)], types={'._sample_sizes': 'list[int]'})])

    def group(has):
        def make(vc):
            g = h5.group(vc, 'iterator', {'order': 'vec[int]'}, attrs_={'next_line': 'int'})
            r = h5.group(vc, 'state', {}, child=('iterator', g, z3.BoolVal(has)))
            vc.st.objs[r.oid]['ITER'] = g
            return r
        return make
    w.contract(SH + '.get_state', params={'state': group(True)}, opts={'self_rec': 'Shuffled'},
               requires=['state.ITER.order is None or len(state.ITER.order) == len(self._order)'],
               ensures=['eqt(state.ITER.order, self._order)', 'state.ITER.attrs.next_line == self._next_line', 'self._next_line == old(self._next_line) and eqt(self._order, old(self._order))'])
    w.contract(SH + '.set_state', variant='nothing', params={'state': group(False)}, opts={'self_rec': 'Shuffled', 'never_returns': True}, raises={'IncompatibleStateError': 'True'})
    w.contract(SH + '.set_state', params={'state': group(True)}, opts={'self_rec': 'Shuffled'},
               raises={'IncompatibleStateError': 'state.ITER.order is None or state.ITER.attrs.next_line is None or len(state.ITER.order) == 0'},
               modifies=['self._order', 'self._next_line', 'self._buffer', 'self._end_of_file'],
               ensures=['eqt(self._order, state.ITER.order)', 'self._next_line == state.ITER.attrs.next_line',
                        # nothing of what was read before remains
                        'len(self._buffer) == 0 and not self._end_of_file'])
    return w
