"""P24: lattice batches."""
import z3
from pyvc.types import *
from pyvc.vc import World, Loop, BuiltinV

F = 'theanolm/scoring/latticebatch.py::LatticeBatch'
K = 'theanolm/scoring/kaldilattice.py::'
ASSUMPTIONS = ['file.readlines() returns the lines of the list file; str.strip() is an uninterpreted function of the string']


def world():
    w = World()
    w.record('LatticeBatch', F, _lattices='list[str]', _lattice_format='str', kaldi_word_to_id='dict[str,int]',
             kaldi_id_to_word='list[opt[str]]')
    w.record('ListFile', lines='list[str]')
    w.records['ListFile'].attrs['readlines'] = lambda vc: BuiltinV('readlines', lambda vc, a, k: _lines(vc))

    def _lines(vc):
        for oid, attrs in vc.st.objs.items():
            if 'lines' in attrs: return attrs['lines']
        raise Unsupported('no list file')
    bad = 'num_jobs < 1 or job_id < 0 or job_id >= num_jobs'
    for fmt in ('slf', 'kaldi'):
        for lst in (False, True):
            paths = 'old(lattices)' + (' + lattice_list_file.lines' if lst else '')
            w.contract(F + '.__init__', variant='%s%s' % (fmt, ' with list' if lst else ''),
                       params={'lattices': 'list[str]', 'lattice_list_file': (lambda vc: vc.new_record(vc.world.records['ListFile'], 'lf')) if lst else (lambda vc: None),
                               'lattice_format': lambda vc, fmt=fmt: fmt, 'kaldi_vocabulary': (lambda vc: None) if fmt == 'slf' else 'opaque',
                               'num_jobs': 'int', 'job_id': 'int'},
                       raises={'ValueError': bad}, may_raise=['InputError'],
                       ensures=['implies(len({0}) > 0, self._lattices == {0}[job_id::num_jobs])'.format('[x for x in [p.strip() for p in %s] if x]' % paths),
                                'implies(len({0}) == 0, self._lattices == ["-"][job_id::num_jobs])'.format('[x for x in [p.strip() for p in %s] if x]' % paths),
                                'self._lattice_format == "%s"' % fmt] +
                       (["forall('str', lambda w: implies(w in self.kaldi_word_to_id, self.kaldi_id_to_word[self.kaldi_word_to_id[w]] == w))",
                         'len(self.kaldi_id_to_word) == len(self.kaldi_word_to_id)'] if fmt == 'kaldi' else []),
                       loops=[Loop(inv=['len(self.kaldi_id_to_word) == len(self.kaldi_word_to_id)',
                                        'forall(_k, lambda j: self.kaldi_id_to_word[self.kaldi_word_to_id[keyat(self.kaldi_word_to_id, j)]] == keyat(self.kaldi_word_to_id, j))'])])
    w.contract(F + '.__init__', variant='no vocabulary',
               params={'lattices': 'list[str]', 'lattice_list_file': lambda vc: None, 'lattice_format': lambda vc: 'kaldi',
                       'kaldi_vocabulary': lambda vc: None, 'num_jobs': 'int', 'job_id': 'int'},
               raises={'ValueError': 'True'}, opts={'never_returns': True})
    w.contract(K + 'read_kaldi_vocabulary', params={'input_file': 'opaque'}, returns='dict[str,int]', assume_only=True, may_raise=['InputError'],
               note='the IDs of a Kaldi word table are 0..n-1, each once',
               ensures=["forall('str', lambda w: implies(w in result, 0 <= result[w] < len(result)))",
                        "forall('str;str', lambda w, v: implies(w in result and v in result and result[w] == result[v], w == v))"])
    PARTS = 'input_file[i].split()'
    w.contract(K + 'read_kaldi_vocabulary', variant='body', params={'input_file': 'list[str]'}, returns='dict[str,int]',
               locals={'result': 'dict[str,int]'}, may_raise=['ValueError'],
               raises={'InputError': 'exists(len(input_file), lambda i: len(%s) != 0 and len(%s) != 2)' % (PARTS, PARTS)},
               ensures=['forall(len(input_file), lambda i: implies(len({0}) == 2, {0}[0] in result))'.format(PARTS),
                        "forall('str', lambda x: implies(x in result, exists(len(input_file), lambda i: len({0}) == 2 and {0}[0] == x and result[x] == int({0}[1]))))".format(PARTS)],
               loops=[Loop(inv=['forall(_k, lambda i: len({0}) == 0 or (len({0}) == 2 and {0}[0] in result))'.format(PARTS),
                                "forall('str', lambda x: implies(x in result, exists(_k, lambda i: len({0}) == 2 and {0}[0] == x and result[x] == int({0}[1]))))".format(PARTS)])])
    # --- reading the files of the job
    I, B = z3.IntSort(), z3.BoolSort()
    nlines = z3.Function('nlines', I, I)           # number of lines of a file
    line = z3.Function('line', I, I, I)            # j-th line
    cnt = z3.Function('cnt', I, I, I)              # lattices ended by the first j lines
    opn = z3.Function('opn', I, I, I)              # non-empty lines since the last empty one
    emp = z3.Function('emp', I, I, B)
    off = z3.Function('off', I, I)                 # lattices of the files before the k-th one
    from pyvc.builtinsmixin import _sf
    strip = lambda x: _sf('strip', I, I, I)(x, z3.IntVal(0))
    q, j = z3.Ints('q!g j!g')
    defn = lambda q, j: z3.And(
        cnt(q, j + 1) == cnt(q, j) + z3.If(z3.And(emp(q, j), opn(q, j) > 0), 1, 0),
        opn(q, j + 1) == z3.If(emp(q, j), 0, opn(q, j) + 1),
        emp(q, j) == z3.Or(j >= nlines(q), strip(line(q, j)) == strcode('')))
    w.axioms += [
        z3.ForAll([q], z3.And(cnt(q, 0) == 0, opn(q, 0) == 0), patterns=[nlines(q)]),
        z3.ForAll([q], nlines(q) >= 0, patterns=[nlines(q)]),
        z3.ForAll([q, j], line(q, j) != strcode(''), patterns=[line(q, j)]),
        z3.ForAll([q, j], z3.Implies(j >= 0, defn(q, j)), patterns=[emp(q, j)]),
        z3.ForAll([q], opn(q, nlines(q)) >= 0, patterns=[nlines(q)]),
    ]
    g2 = lambda f, ty: (lambda vc, a, k: T(ty, f(vc.pack(a[0], STR), vc.intt(a[1]))))
    w.specfns.update(LINE=g2(line, STR), cnt=g2(cnt, INT), opn=g2(opn, INT), emp=g2(emp, BOOL),
                     nlines=lambda vc, a, k: T(INT, nlines(vc.pack(a[0], STR))), off=lambda vc, a, k: T(INT, off(vc.intt(a[0]))))
    w.heap_class('File', 'File', path='str', pos='int')

    def openf(vc, a, k):
        ref = vc.st.alloc
        vc.st.alloc = ref + 1
        vc.set_field(ref, 'File', 'path', a[0])
        vc.set_field(ref, 'File', 'pos', 0)
        return T(RefT('File'), ref)

    def readline(vc, o, a, k):
        p = vc.get_field(o.t, 'File', 'path').t
        pos = vc.get_field(o.t, 'File', 'pos').t
        vc.set_field(o.t, 'File', 'pos', T(INT, z3.If(pos < nlines(p), pos + 1, pos)))
        vc.assume(z3.Implies(pos >= 0, defn(p, pos)))
        return T(STR, z3.If(pos < nlines(p), line(p, pos), strcode('')))
    w.ref_methods['File', 'readline'] = readline
    w.externals['theanolm/backend/filetypes.py::TextFileType'] = lambda vc, a, k: BuiltinV('open', openf)

    def lattice(vc, a, k):
        # the reader is given the lines of one lattice and the word table of this batch
        h = vc.content(a[1])
        vc.oblige('the word table of the batch is used', vc.truth(vc.mkbool(vc.eq(a[1], _self(vc, 'kaldi_id_to_word')))))
        return vc.new_cell(vc.content(a[0]))

    def _self(vc, at):
        for oid, attrs in vc.st.objs.items():
            if at in attrs: return attrs[at]
    w.externals['theanolm/scoring/kaldilattice.py::KaldiLattice'] = lattice
    END = '(emp({p}, j) and opn({p}, j) > 0)'
    BLOCK = ('len({y}) == opn({p}, j) and forall(opn({p}, j), lambda i: {y}[i] == LINE({p}, j - opn({p}, j) + i).strip())')
    TOTAL = '(cnt({0}, nlines({0})) + (1 if opn({0}, nlines({0})) > 0 else 0))'
    P = 'self._lattices[f]'
    done = ('forall({n}, lambda f: forall(nlines(%s) + 1, lambda j: implies(%s, 0 <= off(f) + cnt(%s, j) < off(f + 1) <= len({y}) and %s)))' %
            (P, END.format(p=P), P, BLOCK.format(y='{y}[off(f) + cnt(%s, j)]' % P, p=P)))
    w.contract(F + '.__iter__', variant='kaldi', returns='list[list[str]]',
               setup=lambda vc, vars: vc.st.objs[vars['self'].oid].__setitem__('_lattice_format', 'kaldi'),
               requires=['off(0) == 0', 'forall(len(self._lattices), lambda f: off(f + 1) == off(f) + %s and cnt(%s, nlines(%s)) >= 0)' % (TOTAL.format(P), P, P)],
               ensures=['len(result) == off(len(self._lattices))', done.format(n='len(self._lattices)', y='result')],
               loops=[Loop(types={'line': 'str', 'lattice_lines': 'list[str]', 'path': 'str', 'id_to_word': 'list[opt[str]]', 'lattice_file': 'ref[File]'},
                           inv=['len(yields) == off(_k)', done.format(n='_k', y='yields')]),
                      Loop(types={'lattice_lines': 'list[str]', 'line': 'str'},
                           inv=['lattice_file.path == path and 0 <= lattice_file.pos <= nlines(path)',
                                'len(yields) == entry(len(yields)) + cnt(path, lattice_file.pos)',
                                '0 <= opn(path, lattice_file.pos) <= lattice_file.pos and cnt(path, lattice_file.pos) >= 0',
                                'len(lattice_lines) == opn(path, lattice_file.pos)',
                                'forall(len(lattice_lines), lambda i: lattice_lines[i] == LINE(path, lattice_file.pos - len(lattice_lines) + i).strip())',
                                'forall(entry(len(yields)), lambda i: yields[i] == entry(yields)[i])',
                                'forall(lattice_file.pos, lambda j: implies(%s, 0 <= cnt(path, j) < cnt(path, lattice_file.pos) and %s))' % (
                                    END.format(p='path'), BLOCK.format(y='yields[entry(len(yields)) + cnt(path, j)]', p='path'))])])
    return w
