"""P05: linear reading of sentences."""
import z3
from pyvc.types import *
from pyvc.vc import World, Loop
from contracts.rec import prefix_fn
from contracts.p17 import utterance, UTT, UTTAT

B = 'theanolm/parsing/batchiterator.py::BatchIterator'
L = 'theanolm/parsing/linearbatchiterator.py::LinearBatchIterator'
ASSUMPTIONS = ['a file object is the sequence of its lines and a position: readline returns the next line, never empty, or the empty string at the end, and seek(0) goes back to the first line',
               'a pass is the sequence of lines that _readline gives until it returns None; _read_sequence is a function of the buffered words and the position in that sequence, so that it gives the same sequences after every reset']
SEQT = 'list[list[tup[str,int]]]'


def files(w):
    I = z3.IntSort()
    nl, line = z3.Function('nlines', I, I), z3.Function('fline', I, I, I)
    q, j = z3.Ints('q!f j!f')
    w.axioms += [z3.ForAll([q], nl(q) >= 0, patterns=[nl(q)]), z3.ForAll([q, j], line(q, j) != strcode(''), patterns=[line(q, j)])]
    w.heap_class('File', 'File', pos='int')
    w.specfns['NL'] = lambda vc, a, k: T(INT, nl(a[0].t))
    w.specfns['LINE'] = lambda vc, a, k: T(STR, line(a[0].t, vc.intt(a[1])))

    def readline(vc, o, a, k):
        pos = vc.get_field(o.t, 'File', 'pos').t
        vc.set_field(o.t, 'File', 'pos', T(INT, z3.If(pos < nl(o.t), pos + 1, pos)))
        return T(STR, z3.If(pos < nl(o.t), line(o.t, pos), strcode('')))

    def seek(vc, o, a, k):
        vc.oblige('seek goes to the first line', vc.intt(a[0]) == 0)
        vc.set_field(o.t, 'File', 'pos', a[0])
        return None
    w.ref_methods['File', 'readline'] = readline
    w.ref_methods['File', 'seek'] = seek
    w.cum = prefix_fn(w, 'CUM', ['list[ref[File]]'], 'int', 0, lambda A, k, g: g(w.cum, k) + nl(z3.Select(A[0], k)), nonneg=True)


def linear():
    w = World()
    files(w)
    w.record('Linear', L, _file_id='int', _input_file='ref[File]', _input_files='list[ref[File]]')
    N, F, P = 'len(self._input_files)', 'self._file_id', 'self._input_file.pos'
    inv = '0 <= {f} < {n} and same(self._input_file, self._input_files[{f}]) and 0 <= {p} <= NL(self._input_file)'.format(f=F, n=N, p=P)
    done = '{f} >= {n} and {p} == NL(self._input_file)'.format(f=F, n=N, p=P)
    at = 'CUM(self._input_files, %s) + %s' % (F, P)
    oat = 'CUM(self._input_files, old(self._file_id)) + old(self._input_file.pos)'
    fin = 'old(self._file_id) >= ' + N
    frame = ['self._input_files == old(self._input_files)']
    w.contract(L + '._reset', params={'shuffle': 'bool'}, requires=[N + ' >= 1'], modifies=['self._file_id', 'self._input_file', 'File.pos'],
               ensures=['%s == 0' % F, 'same(self._input_file, self._input_files[0])', P + ' == 0', inv] + frame)
    w.contract(L + '._readline', returns='opt[tup[str,int]]', requires=[N + ' >= 1', '(%s) or (%s)' % (inv, done)],
               modifies=['self._file_id', 'self._input_file', 'File.pos'],
               ensures=['result is not None or (%s)' % done,
                        # nothing is left when None is returned
                        'result is not None or %s or %s == CUM(self._input_files, %s)' % (fin, oat, N),
                        'result is None or (%s)' % inv,
                        # the line at the old position, in the file it belongs to
                        'result is None or not (%s)' % fin,
                        'result is None or (result[1] == {f} and {at} == {o} + 1 and {p} >= 1 and result[0] == LINE(self._input_files[{f}], {p} - 1))'.format(f=F, at=at, o=oat, p=P)] + frame,
               loops=[Loop(inv=['(%s) or (%s)' % (inv, done), '(%s) or (%s)' % (inv, fin), 'not (%s) or %s >= %s' % (fin, F, N),
                                'line != "" or %s == NL(self._input_file)' % P, 'line != "" or %s or %s == %s' % (fin, at, oat),
                                'line == "" or not (%s)' % fin, 'line == "" or ({p} >= 1 and line == LINE(self._input_file, {p} - 1) and {at} == {o} + 1)'.format(p=P, at=at, o=oat),
                                'self._input_files == old(self._input_files)'],
                           decreases='%s - %s if %s < %s else 0' % (N, F, F, N))])
    return w


def sequences():
    """One line or piece of a line at a time."""
    w = World()
    utterance(w)
    w.record('Reader', B, LINES='list[tup[str,int]]', lpos='int', _buffer='list[tup[str,int]]', _max_sequence_length='opt[int]')
    w.contract(B + '._readline', assume_only=True, returns='opt[tup[str,int]]', modifies=['self.lpos'], opts={'self_rec': 'Reader'},
               ensures=['iff(result is None, old(self.lpos) >= len(self.LINES))', 'result is None or (result == self.LINES[old(self.lpos)] and self.lpos == old(self.lpos) + 1)',
                        'result is not None or self.lpos == old(self.lpos)'])
    ob = 'old(self._buffer)'
    lp = 'old(self.lpos)'
    LN = 'self.LINES[%s][0]' % lp
    n = '(len({ob}) if len({ob}) > 0 else 0 if {l}.rstrip() == "" else {u})'.format(ob=ob, l=LN, u=UTT.replace('line', LN))
    E = lambda i, x: '(len({ob}) > 0 or ({x}[0] == {u} and {x}[1] == self.LINES[{lp}][1])) and (len({ob}) == 0 or {x} == {ob}[{i}])'.format(ob=ob, u=UTTAT.format(i).replace('line', LN), lp=lp, i=i, x=x)
    for lim in (False, True):
        cut = '(self._max_sequence_length if self._max_sequence_length < N else N)' if lim else 'N'
        def setup(vc, vars, lim=lim):
            o = vc.st.objs[vars['self'].oid]
            o['_max_sequence_length'] = T(INT, vc.fresh('max', z3.IntSort())) if lim else None
        cut = cut.replace('N', n)
        G = lambda s: 'result is None or (%s)' % s.replace('CUT', cut).replace('NUM', n)
        w.contract(B + '._read_sequence', variant='limited' if lim else 'unlimited', setup=setup, returns='opt[list[tup[str,int]]]',
                   requires=['0 <= self.lpos'] + (['self._max_sequence_length >= 1'] if lim else []), modifies=['self._buffer', 'self.lpos'], opts={'self_rec': 'Reader', 'cost': 5},
                   ensures=['iff(result is None, len({ob}) == 0 and {lp} >= len(self.LINES))'.format(ob=ob, lp=lp),
                            'result is not None or (len(self._buffer) == 0 and self.lpos == %s)' % lp,
                            G('self.lpos == {lp} + (0 if len({ob}) > 0 else 1)'.format(ob=ob, lp=lp)),
                            G('len(result) == CUT and len(self._buffer) == NUM - CUT'),
                            G('forall(len(result), lambda i: %s)' % E('i', 'result[i]')),
                            G('forall(len(self._buffer), lambda i: %s)' % E('i + self._max_sequence_length', 'self._buffer[i]')) if lim else G('len(self._buffer) == 0')])
    return w


def batches():
    w = World()
    T_ = parse_type(SEQT)
    w.record('Iter', B, SEQ=SEQT, q='int', BATCH=SEQT, _batch_size='int', _end_of_file='bool')
    w.kept = prefix_fn(w, 'KEPT', [SEQT], 'int', 0, lambda A, k, g: g(w.kept, k) + z3.If(T_.e.length(z3.Select(A[0], k)) >= 2, 1, 0), nonneg=True)
    SR = {'self_rec': 'Iter'}
    w.contract(B + '._read_sequence', assume_only=True, returns='opt[list[tup[str,int]]]', modifies=['self.q'], opts=SR, requires=['0 <= self.q <= len(self.SEQ)'],
               ensures=['iff(result is None, old(self.q) == len(self.SEQ))', 'result is None or (eqt(result, self.SEQ[old(self.q)]) and self.q == old(self.q) + 1)', 'result is not None or self.q == old(self.q)'])
    w.contract(B + '._reset', assume_only=True, params={'shuffle': 'bool'}, modifies=['self.q'], opts=SR, ensures=['self.q == 0'])
    w.contract(B + '._prepare_batch', assume_only=True, params={'sequences': SEQT}, modifies=['self.BATCH'], returns='opaque', opts=SR, ensures=['eqt(self.BATCH, sequences)'])
    K = lambda i: 'KEPT(self.SEQ, %s)' % i
    q0 = 'old(self.q)'
    got = lambda s: ['len({s}) == {a} - {b}'.format(s=s, a=K('self.q'), b=K(q0)), '%s <= self.q <= len(self.SEQ)' % q0,
                     'forall({q0}, self.q, lambda i: len(self.SEQ[i]) < 2 or ({b} <= {k} < {b} + len({s}) and eqt({s}[{k} - {b}], self.SEQ[i])))'.format(q0=q0, s=s, k=K('i'), b=K(q0))]
    w.contract(B + '.__next__', returns='opaque', may_raise=['StopIteration'], modifies=['self.q', 'self.BATCH', 'self._end_of_file'],
               requires=['0 <= self.q <= len(self.SEQ)', 'self._batch_size >= 1', 'not self._end_of_file or self.q == len(self.SEQ)'],
               opts={'self_rec': 'Iter', 'cost': 6, 'ensures_raise': ['self.q == 0 and not self._end_of_file', 'old(self._end_of_file) or %s == %s' % (K('len(self.SEQ)'), K(q0))]},
               ensures=['not ' + 'old(self._end_of_file)'] + got('self.BATCH') + ['1 <= len(self.BATCH) <= self._batch_size',
                        'iff(self._end_of_file, len(self.BATCH) < self._batch_size)', 'not self._end_of_file or self.q == len(self.SEQ)'],
               loops=[Loop(inv=got('sequences') + ['len(sequences) < self._batch_size', 'not self._end_of_file', 'self._batch_size >= 1'], types={'sequences': SEQT})])
    w.contract(B + '.__len__', returns='int', modifies=['self.q'], requires=['self._batch_size >= 1'], opts={'self_rec': 'Iter'},
               ensures=['self.q == 0', 'result == (%s + self._batch_size - 1) // self._batch_size' % K('len(self.SEQ)')],
               loops=[Loop(inv=['0 <= self.q <= len(self.SEQ)', 'num_sequences == ' + K('self.q')])])
    # the number of batches: all but the last have the full size
    n, b, full, last = z3.Ints('kept batch_size full last')
    w.lemma('a pass yields the reported number of batches', (n + b - 1) / b == full + z3.If(last > 0, 1, 0), [b >= 1, full >= 0, last >= 0, last < b, n == full * b + last])
    return w


def world():
    return [linear(), sequences(), batches()]
