"""Types and symbolic values of the verifier.

Every value handled by the symbolic executor is one of
  * a native Python constant (None, bool, int, float, Fraction, str),
  * T(ty, term): a z3 term of a scalar or packed type,
  * a Python tuple of values,
  * SeqC / NDArr / DictC / SetC: immutable *contents* of containers (closures),
  * Handle(loc): a reference to mutable container contents held in the state,
  * Rec(oid, cls): a reference to an object record held in the state,
  * callables and modules of the interpreted program.
"""
import z3
from fractions import Fraction


class Unsupported(Exception):
    """The construct is outside the subset: no verdict from the proof."""


class Ty:
    name = '?'
    def __repr__(self): return self.name
    def __eq__(self, o): return isinstance(o, Ty) and self.name == o.name
    def __hash__(self): return hash(self.name)


class Scalar(Ty):
    def __init__(self, name, sort): self.name, self._s = name, sort
    @property
    def sort(self): return self._s


INT = Scalar('int', z3.IntSort())
REAL = Scalar('real', z3.RealSort())
BOOL = Scalar('bool', z3.BoolSort())
STR = Scalar('str', z3.IntSort())      # strings are coded as integers
NONE = Scalar('none', z3.IntSort())
OPAQUE = Scalar('opaque', z3.IntSort())  # identity-only values


class RefT(Ty):
    """Reference to an object of a heap class (fields live in SMT arrays)."""
    def __init__(self, cls): self.cls, self.name = cls, 'ref_' + cls
    sort = z3.IntSort()


class RecT(Ty):
    """A record object: only as a parameter / attribute type, never packed."""
    def __init__(self, cls, attrs=None, attr_types=None):
        self.cls, self.attrs = cls, dict(attrs or {})
        self.name = 'rec_' + cls

    @property
    def sort(self): raise Unsupported('record %s in a container' % self.cls)


class FnT(Ty):
    """An opaque callable: contract given as python function (vc, args)->value."""
    def __init__(self, fn): self.fn, self.name = fn, 'fn'


_dt_cache = {}


def _mk(name, ctors):
    if name in _dt_cache:
        return _dt_cache[name]
    d = z3.Datatype(name)
    for c, fs in ctors:
        d.declare(c, *fs)
    d = d.create()
    _dt_cache[name] = d
    return d


def _san(n):
    return ''.join(ch if ch.isalnum() else '_' for ch in n)


class UnionT(Ty):
    def __init__(self, alts):
        flat = []
        for a in alts:
            for b in (a.alts if isinstance(a, UnionT) else [a]):
                if b not in flat:
                    flat.append(b)
        self.alts = sorted(flat, key=lambda t: t.name)
        self.name = 'U<' + '|'.join(a.name for a in self.alts) + '>'

    @property
    def sort(self):
        p = _san(self.name)
        return _mk(p, [('%s_c%d' % (p, i), [] if a == NONE else [('%s_v%d' % (p, i), a.sort)])
                       for i, a in enumerate(self.alts)])

    def is_alt(self, term, i): return getattr(self.sort, 'is_%s_c%d' % (_san(self.name), i))(term)
    def val(self, term, i): return getattr(self.sort, '%s_v%d' % (_san(self.name), i))(term)
    def con(self, i, term=None):
        c = getattr(self.sort, '%s_c%d' % (_san(self.name), i))
        return c if term is None else c(term)


def OptT(t): return UnionT([NONE, t])


class TupT(Ty):
    def __init__(self, ts):
        self.ts = list(ts)
        self.name = 'tup<' + ','.join(t.name for t in self.ts) + '>'

    @property
    def sort(self):
        p = _san(self.name)
        return _mk(p, [(p + '_mk', [('%s_f%d' % (p, i), t.sort) for i, t in enumerate(self.ts)])])

    def mk(self, terms): return getattr(self.sort, _san(self.name) + '_mk')(*terms)
    def get(self, term, i): return getattr(self.sort, '%s_f%d' % (_san(self.name), i))(term)


class RangeT(TupT):
    def __init__(self):
        self.ts = [INT, INT]
        self.name = 'range'


class ListT(Ty):
    kind = 'list'
    def __init__(self, e):
        self.e = e
        self.name = '%s<%s>' % (self.kind, e.name)

    @property
    def sort(self):
        p = _san(self.name)
        return _mk(p, [(p + '_mk', [(p + '_len', z3.IntSort()),
                                    (p + '_arr', z3.ArraySort(z3.IntSort(), self.e.sort))])])

    def mk(self, n, a): return getattr(self.sort, _san(self.name) + '_mk')(n, a)
    def length(self, t): return getattr(self.sort, _san(self.name) + '_len')(t)
    def arr(self, t): return getattr(self.sort, _san(self.name) + '_arr')(t)


class HTupT(ListT):
    """Homogeneous tuple of unknown length."""
    kind = 'htup'


class NDT(Ty):
    """numpy array with a fixed number of dimensions."""
    def __init__(self, e, nd):
        self.e, self.nd = e, nd
        self.name = 'nd%d<%s>' % (nd, e.name)

    @property
    def sort(self):
        p = _san(self.name)
        a = self.e.sort
        for _ in range(self.nd):
            a = z3.ArraySort(z3.IntSort(), a)
        return _mk(p, [(p + '_mk', [('%s_d%d' % (p, i), z3.IntSort()) for i in range(self.nd)] +
                        [(p + '_arr', a)])])

    def mk(self, dims, a): return getattr(self.sort, _san(self.name) + '_mk')(*(list(dims) + [a]))
    def dim(self, t, i): return getattr(self.sort, '%s_d%d' % (_san(self.name), i))(t)
    def arr(self, t): return getattr(self.sort, _san(self.name) + '_arr')(t)


class DictT(Ty):
    def __init__(self, k, v):
        self.k, self.v = k, v
        self.name = 'dict<%s,%s>' % (k.name, v.name)

    @property
    def sort(self):
        p = _san(self.name)
        I = z3.IntSort()
        return _mk(p, [(p + '_mk', [(p + '_n', I), (p + '_key', z3.ArraySort(I, self.k.sort)),
                                    (p + '_has', z3.ArraySort(self.k.sort, z3.BoolSort())),
                                    (p + '_val', z3.ArraySort(self.k.sort, self.v.sort)),
                                    (p + '_idx', z3.ArraySort(self.k.sort, I))])])

    def mk(self, *a): return getattr(self.sort, _san(self.name) + '_mk')(*a)
    def part(self, t, w): return getattr(self.sort, _san(self.name) + '_' + w)(t)


class SetT(Ty):
    def __init__(self, e):
        self.e = e
        self.name = 'set<%s>' % e.name

    @property
    def sort(self): return z3.ArraySort(self.e.sort, z3.BoolSort())


class T:
    """A symbolic value."""
    __slots__ = ('ty', 't')
    def __init__(self, ty, t): self.ty, self.t = ty, t
    def __repr__(self): return 'T(%s, %s)' % (self.ty, self.t)


class SeqC:
    """Contents of a list: length and element closure (index term -> term)."""
    def __init__(self, n, e, at, arr=None, htup=False):
        self.n, self.e, self.at, self.arr, self.htup = n, e, at, arr, htup


class NDArr:
    """Contents of a numpy array; rng is the range of a small integer element type."""
    rng = None
    def __init__(self, shape, e, at, arr=None):
        self.shape, self.e, self.at, self.arr = tuple(shape), e, at, arr


class DictC:
    def __init__(self, kt, vt, n, key, has, val, idx):
        self.kt, self.vt, self.n, self.key, self.has, self.val, self.idx = kt, vt, n, key, has, val, idx


class SetC:
    def __init__(self, e, has, n=None): self.e, self.has, self.n = e, has, n


class Handle:
    """Reference to a mutable container; loc is hashable-ish."""
    __slots__ = ('loc', 'ty')
    def __init__(self, loc, ty=None): self.loc, self.ty = loc, ty


class Rec:
    __slots__ = ('oid', 'cls')
    def __init__(self, oid, cls): self.oid, self.cls = oid, cls
    def __repr__(self): return 'Rec(%s,%s)' % (self.oid, self.cls)


class Iter:
    """Abstract iterable: number of elements (term) and element value."""
    def __init__(self, n, at, one_shot=False): self.n, self.at = n, at


_strcodes = {}


def strcode(s):
    if s not in _strcodes:
        _strcodes[s] = len(_strcodes) + 1000
    return z3.IntVal(_strcodes[s])


def code_to_str(i):
    for k, v in _strcodes.items():
        if v == i:
            return k
    return None


def parse_type(s, records=None):
    """Parses a type description such as 'list[opt[real]]'."""
    if isinstance(s, Ty):
        return s
    s = s.strip()
    base = {'int': INT, 'real': REAL, 'bool': BOOL, 'str': STR, 'none': NONE, 'opaque': OPAQUE}
    if s == 'range': return RangeT()
    if s in base:
        return base[s]
    if '[' in s:
        h, rest = s.split('[', 1)
        assert rest.endswith(']'), s
        rest = rest[:-1]
        parts, d, cur = [], 0, ''
        for ch in rest:
            if ch == '[': d += 1
            if ch == ']': d -= 1
            if ch == ',' and d == 0:
                parts.append(cur); cur = ''
            else:
                cur += ch
        parts.append(cur)
        if h == 'ref':
            return RefT(parts[0].strip())
        if h == 'rec':
            return records[parts[0].strip()]
        sub = [parse_type(x, records) for x in parts]
        if h == 'list': return ListT(sub[0])
        if h == 'htup': return HTupT(sub[0])
        if h == 'opt': return OptT(sub[0])
        if h == 'union': return UnionT(sub)
        if h == 'tup': return TupT(sub)
        if h == 'dict': return DictT(sub[0], sub[1])
        if h == 'set': return SetT(sub[0])
        if h == 'vec': return NDT(sub[0], 1)
        if h == 'mat': return NDT(sub[0], 2)
        if h == 'ten3': return NDT(sub[0], 3)
    raise ValueError('type ' + s)
