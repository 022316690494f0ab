"""Built-in functions, container methods, numpy and string models."""
import ast
import math
from fractions import Fraction

import z3

from .types import *
from . import vc as V
from .evalmixin import PyList, PyDict, vcm

zint = V.zint
I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()


# ------------------------------------------------------------------ helpers
@vcm
def lift(self, v):
    """Container contents for a value (lists, tuples, arrays)."""
    if isinstance(v, T) and isinstance(v.ty, UnionT):
        v = self.split(v)
    c = self.content(v)
    if isinstance(c, tuple):
        return self.seq_of_values(c, htup=True)
    return c


@vcm
def length(self, v):
    if isinstance(v, T) and isinstance(v.ty, UnionT):
        v = self.split(v)
    if isinstance(v, tuple): return len(v)
    if isinstance(v, str): return len(v)
    if isinstance(v, T) and v.ty == STR:
        f = z3.Function('str_len', I, I)
        self.assume(f(v.t) >= 0)
        self.assume((f(v.t) == 0) == (v.t == strcode('')))
        return T(INT, f(v.t))
    if isinstance(v, V.RangeV):
        return self.mkint(self.iterate(v).n)
    if isinstance(v, Iter):
        return self.mkint(v.n)
    c = self.content(v)
    if isinstance(c, PyList): return len(c.vals)
    if isinstance(c, PyDict): return len(c.d)
    if isinstance(c, SeqC): return self.mkint(zint(c.n))
    if isinstance(c, DictC): return self.mkint(zint(c.n))
    if isinstance(c, NDArr):
        if not c.shape:
            raise Unsupported('len of 0-d array')
        return self.mkint(zint(c.shape[0]))
    if isinstance(c, SetC):
        if c.e is None: return 0
        if c.n is not None: return self.mkint(zint(c.n))
        n = self.fresh('card', I)      # cardinality not tracked: any
        self.assume(n >= 0)
        return T(INT, n)
    if isinstance(v, Rec):
        m = self.rec_member(v, '__len__')
        if m is not None:
            return self.call(m, [], {})
    if isinstance(v, T) and isinstance(v.ty, RefT):
        return self.call(self.getattr_(v, '__len__'), [], {})
    raise Unsupported('len of %r' % (c,))


@vcm
def rec_member(self, v, name):
    attrs = self.st.objs[v.oid]
    if name in attrs:
        return attrs[name]
    src = self.world.rec_src.get(v.cls) or self.dyn_src.get(v.cls)
    cls = self.class_of(src) if src else None
    m = self.class_member(cls, name) if cls else None
    return None if m is None else self.bind_member(m, v, cls)


def b_len(vc, a, k): return vc.length(a[0])


def b_range(vc, a, k):
    a = [vc.split(x) for x in a]
    if len(a) == 1: return V.RangeV(0, a[0])
    if len(a) == 2: return V.RangeV(a[0], a[1])
    return V.RangeV(a[0], a[1], a[2])


def b_enumerate(vc, a, k):
    it = vc.iterate(a[0])
    st = a[1] if len(a) > 1 else k.get('start', 0)
    r = Iter(it.n, lambda i: (vc.binop_s(ast.Add(), vc.mkint(zint(i)), st), it.at(i)))
    return r


def b_zip(vc, a, k):
    its = [vc.iterate(x) for x in a]
    n = zint(its[0].n)
    for it in its[1:]:
        m = zint(it.n)
        s = z3.simplify(n == m)
        if z3.is_true(s): continue
        n = z3.If(n < m, n, m) if vc.spec_mode or vc.feasible(n != m) else n
    return Iter(z3.simplify(n), lambda i: tuple(it.at(i) for it in its))


def b_reversed(vc, a, k):
    it = vc.iterate(a[0])
    n = zint(it.n)
    return Iter(it.n, lambda i: it.at(n - 1 - zint(i)))


SUMR = z3.Function('SUMR', z3.ArraySort(I, R), I, R)
SUMI = z3.Function('SUMI', z3.ArraySort(I, I), I, I)


@vcm
def sum_seq(self, n, e, at):
    """Sum of the elements as an uninterpreted fold (unfolded at query time)."""
    c = self.const_len(n)
    if c is not None and c <= 8:
        r = 0 if e != REAL else T(REAL, z3.RealVal(0))
        for j in range(c):
            r = self.binop_s(ast.Add(), r, self.unpack(e, at(z3.IntVal(j))))
        return r
    real = e == REAL
    if e not in (INT, REAL, BOOL):
        raise Unsupported('sum of %s' % e)
    j = z3.Int('j!sum')
    val = self.pack(self.unpack(e, at(j)), REAL if real else INT)
    arr = z3.Lambda([j], val)
    if getattr(self.world, 'sum_ones', False) and not real and not self.spec_mode:
        # a sum of ones counts them
        m = z3.Int('m!one')
        self.assume(z3.Implies(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zint(n)), val == 1)),
                               z3.ForAll([m], z3.Implies(z3.And(0 <= m, m <= zint(n)), SUMI(arr, m) == m))))
    return T(REAL if real else INT, (SUMR if real else SUMI)(arr, zint(n)))


def b_sum(vc, a, k):
    c = vc.lift(a[0])
    start = a[1] if len(a) > 1 else 0
    if isinstance(c, Iter):
        n = c.n
        j = z3.Int('j!ty')
        e = vc.type_of(c.at(j))
        r = vc.sum_seq(n, e, lambda i: vc.pack(c.at(i), e))
    elif isinstance(c, PyList):
        r = 0
        for x in c.vals: r = vc.binop(ast.Add(), r, x)
    elif isinstance(c, NDArr):
        if k.get('axis') is not None or len(a) > 1:
            return nd_sum(vc, c, k.get('axis', a[1] if len(a) > 1 else None), k.get('keepdims', False))
        r = nd_total(vc, c)
    elif isinstance(c, SeqC):
        if c.e is None: return start
        if hasattr(c, 'base_term'):
            # the sum of the kept elements: the others count as zero
            n, _, _, keep = c.filter
            e, term = c.e, c.base_term
            if isinstance(e, UnionT) and len(e.alts) == 2 and NONE in e.alts:
                ni = e.alts.index(NONE)
                i = z3.Int('i!none')
                vc.require(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zint(n), keep(i)), z3.Not(e.is_alt(term(i), ni)))), 'TypeError', 'sum of None')
                term, e = (lambda i, t=term, u=e: u.val(t(i), 1 - ni)), e.alts[1 - ni]
            if e not in (INT, REAL): raise Unsupported('sum of %s' % e)
            r = vc.sum_seq(n, e, lambda i: z3.If(keep(i), term(i), z3.RealVal(0) if e == REAL else z3.IntVal(0)))
        else: r = vc.sum_seq(c.n, c.e, c.at)
    else:
        raise Unsupported('sum of %r' % (c,))
    return r if start == 0 and isinstance(start, int) else vc.binop_s(ast.Add(), start, r)


def nd_total(vc, c):
    if len(c.shape) == 0: return vc.unpack(c.e, c.at())
    if len(c.shape) == 1: return vc.sum_seq(c.shape[0], c.e, c.at)
    if len(c.shape) == 2:
        inner = lambda i: vc.pack(vc.sum_seq(c.shape[1], c.e, lambda j: c.at(i, j)), REAL if c.e == REAL else INT)
        return vc.sum_seq(c.shape[0], REAL if c.e == REAL else INT, inner)
    raise Unsupported('sum of 3-d array')


def nd_sum(vc, c, axis, keepdims=False):
    if axis is None:
        return nd_total(vc, c)
    if not isinstance(axis, int):
        raise Unsupported('symbolic axis')
    nd = len(c.shape)
    if axis < 0: axis += nd
    e = REAL if c.e == REAL else INT
    n = c.shape[axis]
    if keepdims:
        shape = tuple(1 if d == axis else s for d, s in enumerate(c.shape))
        at = lambda *ix: vc.pack(vc.sum_seq(n, c.e, lambda j: c.at(*(ix[:axis] + (j,) + ix[axis + 1:]))), e)
    else:
        shape = c.shape[:axis] + c.shape[axis + 1:]
        at = lambda *ix: vc.pack(vc.sum_seq(n, c.e, lambda j: c.at(*(ix[:axis] + (j,) + ix[axis:]))), e)
    if not shape:
        return vc.unpack(e, at())
    return vc.new_cell(NDArr(shape, e, at))


def _minmax(vc, a, k, less):
    key = k.get('key')
    if len(a) > 1:
        r = vc.split(a[0])
        for x in a[1:]:
            x = vc.split(x)
            if isinstance(r, (int, float)) and isinstance(x, (int, float)):
                r = min(r, x) if less else max(r, x)
                continue
            kr = r if key is None else vc.call(key, [r], {})
            kx = x if key is None else vc.call(key, [x], {})
            c = vc.compare(ast.Lt() if less else ast.Gt(), kx, kr)
            if vc.spec_mode or (V.is_num(r) and V.is_num(x)):
                r = vc.ite(c, x, r)
            else:
                r = x if vc.branch(c) else r
        return r
    c = vc.lift(a[0])
    if isinstance(c, NDArr) and len(c.shape) == 1:
        c = SeqC(c.shape[0], c.e, c.at)
    if isinstance(c, Iter):
        n, at = zint(c.n), c.at
    elif isinstance(c, SeqC):
        if c.e is None:
            if 'default' in k: return k['default']
            vc.require(False, 'ValueError', 'min/max of empty sequence')
            raise V.PathDead()
        n = zint(c.n)
        at = lambda i: vc.unpack(c.e, c.at(i))
    else:
        it = vc.iterate(a[0])
        n, at = zint(it.n), it.at
    if 'default' in k:
        if not vc.branch(n > 0):
            return k['default']
    else:
        vc.require(n > 0, 'ValueError', 'min/max of empty sequence')
    w = vc.fresh('arg', I)
    vc.assume(z3.And(0 <= w, w < n))
    i = z3.Int('i!mm')
    kf = (lambda v: v) if key is None else (lambda v: vc.call(key, [v], {}))

    def cmp(op, x, y):
        vc.spec_mode += 1
        try:
            r = vc.compare(op, x, y)
        finally:
            vc.spec_mode -= 1
        return z3.BoolVal(r) if isinstance(r, bool) else r
    best = kf(at(w))
    other = kf(at(i))
    vc.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), cmp(ast.LtE() if less else ast.GtE(), best, other))))
    # the first of equal elements is returned
    vc.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w), cmp(ast.Lt() if less else ast.Gt(), best, other))))
    return at(w)


def b_min(vc, a, k): return _minmax(vc, a, k, True)
def b_max(vc, a, k): return _minmax(vc, a, k, False)


def _quant(vc, a, k, is_all):
    c = vc.lift(a[0])
    if isinstance(c, PyList):
        ts = [vc.truth(x) for x in c.vals]
        return vc.mkbool((vc.conj if is_all else vc.disj)(ts))
    if isinstance(c, Iter):
        n, at = c.n, c.at
    elif isinstance(c, NDArr) and len(c.shape) == 1:
        n, at = c.shape[0], lambda i: vc.unpack(c.e, c.at(i))
    elif isinstance(c, SeqC):
        if c.e is None: return is_all
        n, at = c.n, lambda i: vc.unpack(c.e, c.at(i))
    else:
        raise Unsupported('any/all')
    m = vc.const_len(n)
    if m is not None and m <= 8:
        return vc.mkbool((vc.conj if is_all else vc.disj)([vc.truth(at(z3.IntVal(j))) for j in range(m)]))
    i = z3.Int('i!qa%d' % next(vc.counter))
    t = vc.truth(at(i))
    t = z3.BoolVal(t) if isinstance(t, bool) else t
    rng = z3.And(0 <= i, i < zint(n))
    return T(BOOL, z3.ForAll([i], z3.Implies(rng, t)) if is_all else z3.Exists([i], z3.And(rng, t)))


def b_all(vc, a, k): return _quant(vc, a, k, True)
def b_any(vc, a, k): return _quant(vc, a, k, False)


def b_abs(vc, a, k):
    v = vc.split(a[0])
    if isinstance(v, (int, float)): return abs(v)
    c = vc.content(v)
    if isinstance(c, NDArr):
        return vc.elementwise([c], lambda x: b_abs(vc, [x], {}))
    return T(v.ty, z3.If(v.t < 0, -v.t, v.t))


def b_divmod(vc, a, k):
    return (vc.binop_s(ast.FloorDiv(), a[0], a[1]), vc.binop_s(ast.Mod(), a[0], a[1]))


def b_round(vc, a, k):
    v = vc.split(a[0])
    if isinstance(v, (int, float)) and len(a) == 1: return round(v)
    if len(a) == 1 and isinstance(v, T):
        if v.ty == INT: return v
        f = z3.Function('py_round', R, I)
        t = f(v.t)
        vc.assume(z3.And(z3.ToReal(t) - v.t <= z3.RealVal('1/2'), v.t - z3.ToReal(t) <= z3.RealVal('1/2')))
        return T(INT, t)
    raise Unsupported('round')


def b_isinstance(vc, a, k):
    v, t = a
    ts = t if isinstance(t, tuple) else (t,)
    names = [getattr(x, 'name', None) for x in ts]
    if isinstance(v, T) and isinstance(v.ty, UnionT):
        v = vc.split(v)
    def ok(n):
        if n == 'int': return isinstance(v, int) or (isinstance(v, T) and v.ty in (INT, BOOL))
        if n == 'float': return isinstance(v, float) or (isinstance(v, T) and v.ty == REAL)
        if n == 'str': return isinstance(v, str) or (isinstance(v, T) and v.ty == STR)
        if n == 'bool': return isinstance(v, bool) or (isinstance(v, T) and v.ty == BOOL)
        if n in ('list', 'tuple', 'dict', 'set'):
            c = vc.content(v)
            if n == 'list': return isinstance(v, Handle) and isinstance(c, (SeqC, PyList))
            if n == 'tuple': return isinstance(c, tuple) or isinstance(c, SeqC) and c.htup
            if n == 'dict': return isinstance(c, (DictC, PyDict))
            return isinstance(c, SetC)
        if isinstance(v, Rec): return v.cls == n
        if isinstance(v, T) and isinstance(v.ty, RefT): return v.ty.cls == n
        if n == 'bytes' and (isinstance(v, str) or isinstance(v, T) and v.ty == STR): return False
        raise Unsupported('isinstance')
    return any(ok(n) for n in names)


def b_iter(vc, a, k):
    it = vc.iterate(a[0])
    return V.GenV(it, vc.new_cell(('pos', 0)))


def b_next(vc, a, k):
    g = a[0]
    if not isinstance(g, V.GenV): raise Unsupported('next of %r' % (g,))
    pos = vc.content(g.cell)[1]
    if len(a) == 1:
        vc.require(zint(pos) < zint(g.it.n), 'StopIteration', 'next')
    elif not vc.branch(zint(pos) < zint(g.it.n)):
        return a[1]
    vc.store(g.cell.loc, ('pos', z3.simplify(zint(pos) + 1)))
    return g.it.at(zint(pos))


def b_hash(vc, a, k):
    f = vc.world.externals.get('hash')
    if f: return f(vc, a, k)
    raise Unsupported('hash')


def b_id(vc, a, k): raise Unsupported('id')


def b_map(vc, a, k):
    its = [vc.iterate(x) for x in a[1:]]
    if len(its) != 1: raise Unsupported('map')
    it = its[0]
    return Iter(it.n, lambda i: vc.call(a[0], [it.at(i)], {}))


def b_sorted(vc, a, k):
    c = vc.lift(a[0])
    if isinstance(c, Iter) or isinstance(c, (DictC,)):
        c = vc.seq_from_iter(vc.iterate(a[0]))
    if isinstance(c, NDArr): c = SeqC(c.shape[0], c.e, c.at)
    if isinstance(c, PyList): c = vc.seq_of_values(c.vals)
    if isinstance(c, SetC): raise Unsupported('sorted set')
    return vc.new_cell(vc.sorted_seq(c, k.get('key'), k.get('reverse', False)))


@vcm
def seq_from_iter(self, it):
    m = self.const_len(it.n)
    if m is not None and m <= 16:
        return self.seq_of_values([it.at(z3.IntVal(j)) for j in range(m)])
    j = self.fresh('it', I)
    mark = len(self.pc)
    v = it.at(j)
    e = self.type_of(v)
    del self.pc[mark:]

    def at(i):
        return self.pack(it.at(zint(i)), e)
    return SeqC(it.n, e, at)


@vcm
def sorted_seq(self, c, key, reverse):
    """Stable sort as a permutation with its ordering facts."""
    if c.e is None: return c
    if not isinstance(reverse, bool):
        reverse = self.branch(self.truth(reverse))
    n = zint(c.n)
    u = next(self.counter)
    p = z3.Function('perm!%d' % u, I, I)
    q = z3.Function('inv!%d' % u, I, I)
    i, j = z3.Ints('i!so j!so')
    self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= p(i), p(i) < n, q(p(i)) == i)), patterns=[p(i)]))
    self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= q(i), q(i) < n, p(q(i)) == i)), patterns=[q(i)]))
    kf = (lambda v: v) if key is None else (lambda v: self.call(key, [v], {}))
    self.spec_mode += 1
    try:
        a = kf(self.unpack(c.e, c.at(p(i))))
        b = kf(self.unpack(c.e, c.at(p(j))))
        strict = self.compare(ast.Lt(), b, a) if not reverse else self.compare(ast.Lt(), a, b)
        eqk = self.eq(a, b)
    finally:
        self.spec_mode -= 1
    zb = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x
    self.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n),
                z3.And(z3.Not(zb(strict)), z3.Implies(zb(eqk), p(i) < p(j)))),
                patterns=[z3.MultiPattern(p(i), p(j))]))
    r = SeqC(c.n, c.e, lambda x: c.at(p(zint(x))), None, False)
    r.perm = (p, q)
    return r


@vcm
def call_type(self, name, args, kw):
    if name == 'int':
        v = self.split(args[0])
        if isinstance(v, (int, bool)): return int(v)
        if isinstance(v, float): return int(v)
        if isinstance(v, T):
            if v.ty in (INT,): return v
            if v.ty == BOOL: return T(INT, self.intt(v))
            if v.ty == REAL:
                return T(INT, z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
            if v.ty == STR:
                ok = z3.Function('str_is_int', I, B)
                f = z3.Function('str_to_int', I, I)
                self.require(ok(v.t), 'ValueError', 'int() of a string')
                return T(INT, f(v.t))
        if isinstance(v, str):
            return int(v)
    if name == 'float':
        v = self.split(args[0])
        if isinstance(v, str):
            try: return float(v)
            except ValueError:
                self.require(False, 'ValueError', 'float() of a string'); raise V.PathDead()
        if isinstance(v, T) and v.ty == STR:
            ok = z3.Function('str_is_float', I, B)
            f = z3.Function('str_to_float', I, R)
            self.require(ok(v.t), 'ValueError', 'float() of a string')
            return T(REAL, f(v.t))
        if isinstance(v, (int, float)): return float(v)
        return T(REAL, self.real(v))
    if name == 'bool':
        return self.mkbool(self.truth(args[0]))
    if name == 'str':
        v = args[0]
        if isinstance(v, (int, str)) and not isinstance(v, bool): return str(v)
        if isinstance(v, T) and v.ty == STR: return v
        if isinstance(v, T) and v.ty == INT:
            f = z3.Function('int_to_str', I, I)
            g = z3.Function('str_to_int', I, I)
            self.assume(g(f(v.t)) == v.t)
            return T(STR, f(v.t))
        if isinstance(v, T) and isinstance(v.ty, UnionT) and not self.spec_mode: v = self.split(v)
        if isinstance(v, T) and v.ty == REAL: return T(STR, z3.Function('real_to_str', R, I)(v.t))
        return T(STR, self.fresh('str', I))
    if name in ('list', 'tuple'):
        if not args:
            return () if name == 'tuple' else self.new_cell(SeqC(0, None, None))
        v = args[0]
        if name == 'tuple' and isinstance(v, tuple): return v
        c = self.lift(v)
        if isinstance(c, PyList):
            return tuple(c.vals) if name == 'tuple' else self.new_cell(PyList(c.vals))
        if not isinstance(c, SeqC):
            c = self.seq_from_iter(self.iterate(v))
        m = self.const_len(c.n)
        if name == 'tuple':
            if m is not None and m <= 8 and c.e is not None:
                return tuple(self.unpack(c.e, c.at(z3.IntVal(j))) for j in range(m))
            return SeqC(c.n, c.e, c.at, c.arr, True)
        return self.new_cell(SeqC(c.n, c.e, c.at, c.arr, False))
    if name == 'dict':
        if not args and not kw: return self.new_cell(DictC(None, None, 0, None, None, None, None))
        if not args: return self.new_cell(PyDict(kw))
        c = self.content(args[0])
        if isinstance(c, (DictC, PyDict)): return self.new_cell(c)
        s = self.seq_from_iter(self.iterate(args[0]))
        return self.dict_from_pairs(s)
    if name == 'set':
        if not args: return self.new_cell(SetC(None, None, 0))
        c = self.lift(args[0])
        if isinstance(c, SetC): return self.new_cell(c)
        if isinstance(c, PyList): c = self.seq_of_values(c.vals)
        if not isinstance(c, SeqC): c = self.seq_from_iter(self.iterate(args[0]))
        if c.e is None: return self.new_cell(SetC(None, None, 0))
        i = z3.Int('i!set%d' % next(self.counter))
        n = zint(c.n)
        # name the membership predicate so that it has a pattern
        s = z3.Function('mem!%d' % next(self.counter), c.e.sort, B)
        w = z3.Function('wit!%d' % next(self.counter), c.e.sort, I)
        x = z3.Const('x!set', c.e.sort)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), s(c.at(i)))))
        self.assume(z3.ForAll([x], z3.Implies(s(x), z3.And(0 <= w(x), w(x) < n, c.at(w(x)) == x)), patterns=[s(x)]))
        ln = self.fresh('setlen', I)
        self.assume(z3.And(ln >= 0, ln <= n, z3.Implies(n > 0, ln > 0)))
        return self.new_cell(SetC(c.e, lambda q: s(q), ln))
    if name == 'slice':
        if len(args) == 1: return V.SliceV(None, args[0], None)
        return V.SliceV(args[0], args[1], args[2] if len(args) > 2 else None)
    if name == 'object':
        return T(OPAQUE, self.fresh('object', I))
    if name.startswith('numpy.'):
        v = self.split(args[0]) if not isinstance(args[0], Handle) else args[0]
        c = self.content(v)
        if isinstance(c, NDArr): return v
        if 'float' in name:
            if isinstance(v, str) or (isinstance(v, T) and v.ty == STR): return self.call_type('float', [v], {})
            return T(REAL, self.real(v)) if not isinstance(v, (int, float)) else float(v)
        if 'int' in name: return v
        if 'bool' in name: return self.mkbool(self.truth(v))
    raise Unsupported('%s(...)' % name)


# ------------------------------------------------------------------ lists
@vcm
def list_append(self, h, v):
    c = self.content(h)
    if isinstance(c, PyList):
        self.store(h.loc, PyList(c.vals + [v]))
        return
    hint = self.loc_type(h.loc) if h.loc[0] != 'cell' else None
    try:
        vt = self.type_of(v)
        if isinstance(vt, RecT): raise Unsupported('record')
    except Unsupported:
        if c.e is None or hasattr(c, 'vals'):
            self.store(h.loc, PyList(getattr(c, 'vals', []) + [v]))
            return
        raise
    if c.e is None:
        e = vt
    elif vt == c.e or self._coercible(v, vt, c.e):
        e = c.e
    else:
        e = self.join(c.e, vt)
    if e is None:
        # an empty list appended: element type not known yet
        raise Unsupported('element type of an empty list')
    c2 = self.retype(c, e)
    term = self.pack(v, e)
    n = zint(c2.n)
    if c2.arr is not None:
        arr = z3.Store(c2.arr, n, term)
        r = SeqC(self._inc(c2.n), e, lambda i: z3.Select(arr, zint(i)), arr, False)
    else:
        f = c2.at
        r = SeqC(self._inc(c2.n), e, lambda i: z3.If(zint(i) == n, term, f(zint(i))), None, False)
    if hasattr(c, 'vals') and isinstance(c.n, int):
        r.vals = c.vals + [v]
    elif c.e is None and c.n == 0:
        r.vals = [v]
    self.store(h.loc, r)
    self.rehome(v, ('elem', h.loc, n))


@vcm
def _inc(self, n):
    return n + 1 if isinstance(n, int) else z3.simplify(n + 1)


@vcm
def concat_seq(self, a, b):
    if a.e is None: return SeqC(b.n, b.e, b.at, b.arr, a.htup)
    if b.e is None: return a
    e = self.join(a.e, b.e)
    if a.e != e: a = self.retype(a, e)
    if b.e != e: b = self.retype(b, e)
    n = zint(a.n)
    ln = z3.simplify(n + zint(b.n))
    if z3.is_int_value(ln): ln = ln.as_long()
    bat, aat = b.at, a.at
    bn = self.const_len(b.n)
    if a.arr is not None and bn is not None and bn <= 4:
        arr = a.arr
        for j in range(bn):
            arr = z3.Store(arr, n + j, bat(z3.IntVal(j)))
        r = SeqC(ln, e, lambda i: z3.Select(arr, zint(i)), arr, a.htup)
    else:
        r = SeqC(ln, e, lambda i: z3.If(zint(i) < n, aat(zint(i)), bat(zint(i) - n)), None, a.htup)
    if hasattr(a, 'vals') and hasattr(b, 'vals'):
        r.vals = list(a.vals) + list(b.vals)
    return r


@vcm
def list_extend(self, h, v):
    c = self.content(h)
    d = self.lift(v)
    if isinstance(d, NDArr) and len(d.shape) == 1: d = SeqC(d.shape[0], d.e, d.at)
    if not isinstance(d, (SeqC, PyList)):
        d = self.seq_from_iter(self.iterate(v))
    if isinstance(c, PyList) or isinstance(d, PyList):
        cv = c.vals if isinstance(c, PyList) else (getattr(c, 'vals', None) if c.e is not None else [])
        dv = d.vals if isinstance(d, PyList) else (getattr(d, 'vals', None) if d.e is not None else [])
        if cv is None or dv is None: raise Unsupported('extend heterogeneous')
        self.store(h.loc, PyList(list(cv) + list(dv)))
        return
    self.store(h.loc, self.concat_seq(c, d))


@vcm
def try_concat(self, a, b):
    ca, cb = self.content(a), self.content(b)
    if isinstance(ca, tuple) and isinstance(cb, tuple): return ca + cb
    if isinstance(ca, tuple) and isinstance(cb, SeqC) and cb.htup:
        return self.concat_seq(self.seq_of_values(ca, htup=True), cb)
    if isinstance(cb, tuple) and isinstance(ca, SeqC) and ca.htup:
        return self.concat_seq(ca, self.seq_of_values(cb, htup=True))
    if isinstance(ca, PyList) and isinstance(cb, PyList):
        return self.new_cell(PyList(ca.vals + cb.vals))
    if isinstance(ca, SeqC) and isinstance(cb, SeqC):
        r = self.concat_seq(ca, cb)
        return r if ca.htup else self.new_cell(r)
    return None


@vcm
def repeat(self, c, k):
    k = self.split(k)
    if c.e is None: return self.new_cell(c)
    kt = self.intt(k)
    m = self.const_len(c.n)
    if m == 1:
        t = c.at(z3.IntVal(0))
        n = z3.simplify(z3.If(kt > 0, kt, z3.IntVal(0)))
        r = SeqC(n.as_long() if z3.is_int_value(n) else n, c.e, lambda i: t, None, c.htup)
        return r if c.htup else self.new_cell(r)
    raise Unsupported('sequence repetition')


# ------------------------------------------------------------------ attributes and methods
@vcm
def container_attr(self, o, name):
    c = self.content(o)
    if isinstance(c, NDArr):
        if name == 'shape': return tuple(self.mkint(zint(d)) for d in c.shape)
        if name == 'ndim': return len(c.shape)
        if name == 'size':
            r = 1
            for d in c.shape: r = self.binop_s(ast.Mult(), r, self.mkint(zint(d)))
            return r
        if name == 'dtype': return V.TypeV('dtype')
        if name == 'tag': return self.new_record(RecT('Tag', {}), 'tag')
        if name == 'T':
            if len(c.shape) == 2:
                return self.new_cell(NDArr((c.shape[1], c.shape[0]), c.e, lambda i, j: c.at(j, i)))
    if isinstance(o, T) and o.ty in (REAL, INT, BOOL) and name == 'dtype':
        return V.TypeV('dtype')
    return V.MethodV(o, name)


@vcm
def call_method(self, o, name, args, kw):
    if hasattr(o, 'vc_method'): return o.vc_method(self, name, args, kw)
    c = self.content(o)
    if isinstance(c, PyDict): return self.pydict_method(o, c, name, args)
    if isinstance(c, DictC): return self.dict_method(o, c, name, args, kw)
    if isinstance(c, (SeqC, PyList)): return self.list_method(o, c, name, args, kw)
    if isinstance(c, tuple) and name in ('index', 'count'):
        return self.list_method(o, self.seq_of_values(c), name, args, kw)
    if isinstance(c, SetC): return self.set_method(o, c, name, args)
    if isinstance(c, NDArr): return self.nd_method(o, c, name, args, kw)
    if isinstance(o, str) or (isinstance(o, T) and o.ty == STR):
        return self.str_method(o, name, args)
    if isinstance(o, T) and o.ty in (REAL, INT, BOOL):
        if name == 'exp': return _ufun('EXP', _exp_pre)(self, [o], {})
        if name == 'ln': return _ufun('LOG', _log_pre)(self, [o], {})
        if name in ('astype', 'item'): return o
        if name == 'sum': return o
    if isinstance(o, float) and name == 'astype': return o
    if isinstance(o, (T,)) and isinstance(o.ty, UnionT):
        return self.call_method(self.split(o), name, args, kw)
    raise Unsupported('method %s of %r' % (name, o))


@vcm
def pydict_method(self, o, c, name, args):
    if name == 'items': return tuple((k, v) for k, v in c.d.items())
    if name == 'keys': return tuple(c.d.keys())
    if name == 'values': return tuple(c.d.values())
    if name == 'get':
        if isinstance(args[0], str):
            return c.d.get(args[0], args[1] if len(args) > 1 else None)
    if name == 'pop' and isinstance(args[0], str):
        d = dict(c.d)
        if args[0] not in d:
            if len(args) > 1: return args[1]
            self.require(False, 'KeyError', 'pop'); raise V.PathDead()
        v = d.pop(args[0])
        self.store(o.loc, PyDict(d))
        return v
    if name == 'update':
        e = self.content(args[0])
        if isinstance(e, PyDict):
            d = dict(c.d); d.update(e.d)
            self.store(o.loc, PyDict(d)); return None
    raise Unsupported('dict.%s' % name)


@vcm
def dict_method(self, o, c, name, args, kw):
    if name in ('items', 'keys', 'values'):
        if c.kt is None: return Iter(z3.IntVal(0), lambda i: None)
        val = lambda i: (Handle(('dval', o.loc, c.key(zint(i))), c.vt)
                         if isinstance(c.vt, (ListT, NDT, DictT, SetT)) and not isinstance(c.vt, HTupT) and isinstance(o, Handle)
                         else self.unpack(c.vt, c.val(c.key(zint(i)))))
        if name == 'keys': return Iter(zint(c.n), lambda i: self.unpack(c.kt, c.key(zint(i))))
        if name == 'values': return Iter(zint(c.n), val)
        return Iter(zint(c.n), lambda i: (self.unpack(c.kt, c.key(zint(i))), val(i)))
    if name == 'get':
        d = args[1] if len(args) > 1 else None
        if c.kt is None: return d
        k = self.pack_key(args[0], c.kt)
        if self.spec_mode:
            return self.ite(c.has(k), self.unpack(c.vt, c.val(k)), d)
        if self.branch(c.has(k)): return self.getitem(o, args[0])
        return d
    if name == 'setdefault':
        if c.kt is not None:
            k = self.pack_key(args[0], c.kt)
            if self.branch(c.has(k)): return self.getitem(o, args[0])
        self.dict_set(o, args[0], args[1])
        return self.getitem(o, args[0])
    if name == 'copy': return self.new_cell(c)
    if name == 'clear':
        self.store(o.loc, self.empty_dict(DictT(c.kt, c.vt)) if c.kt is not None else c); return None
    if name == 'pop':
        v = self.freeze(self.getitem(o, args[0]))
        self.delitem(o, args[0])
        return v
    raise Unsupported('dict.%s' % name)


@vcm
def set_method(self, o, c, name, args):
    if name == 'add':
        v = args[0]
        if c.e is None:
            t = self.pack(v, self.type_of(v))
            self.store(o.loc, SetC(self.type_of(v), lambda x: x == t, 1))
        else:
            t = self.pack(v, c.e)
            has = c.has
            n = None if c.n is None else z3.If(has(t), zint(c.n), zint(c.n) + 1)
            self.store(o.loc, SetC(c.e, lambda x: z3.Or(x == t, has(x)), n))
        return None
    if name == 'copy': return self.new_cell(c)
    if name in ('union', 'update'):
        d = self.content(self.call_type('set', [args[0]], {}))
        if d.e is None: r = c
        elif c.e is None: r = d
        else: r = SetC(c.e, lambda x: z3.Or(c.has(x), d.has(x)))
        if name == 'union': return self.new_cell(r)
        self.store(o.loc, r); return None
    raise Unsupported('set.%s' % name)


@vcm
def list_method(self, o, c, name, args, kw):
    if name == 'append': return self.list_append(o, args[0])
    if name == 'extend': return self.list_extend(o, args[0])
    if name == 'copy': return self.new_cell(c)
    if name == 'clear':
        self.store(o.loc, SeqC(0, getattr(c, 'e', None), getattr(c, 'at', None))); return None
    if isinstance(c, PyList):
        if name == 'pop':
            vals = list(c.vals); v = vals.pop(*args)
            self.store(o.loc, PyList(vals)); return v
        raise Unsupported('list.%s on heterogeneous list' % name)
    if name == 'sort':
        self.store(o.loc, self.sorted_seq(c, kw.get('key'), kw.get('reverse', False))); return None
    if name == 'reverse':
        n = zint(c.n)
        if c.e is not None:
            f = c.at
            self.store(o.loc, SeqC(c.n, c.e, lambda i: f(n - 1 - zint(i))))
        return None
    if name == 'pop':
        if c.e is None:
            self.require(False, 'IndexError', 'pop from empty list'); raise V.PathDead()
        if not args or args[0] == -1:
            self.require(zint(c.n) > 0, 'IndexError', 'pop from empty list')
            n = z3.simplify(zint(c.n) - 1)
            v = self.freeze(self.unpack(c.e, c.at(n)))
            self.store(o.loc, SeqC(n.as_long() if z3.is_int_value(n) else n, c.e, c.at, c.arr))
            return v
        t = self.norm_index(args[0], c.n, 'pop index')
        v = self.freeze(self.unpack(c.e, c.at(t)))
        f = c.at
        self.store(o.loc, SeqC(zint(c.n) - 1, c.e, lambda i: z3.If(zint(i) < t, f(zint(i)), f(zint(i) + 1))))
        return v
    if name == 'insert':
        i0 = self.split(args[0])
        v = args[1]
        vt = self.type_of(v)
        e = vt if c.e is None else (c.e if vt == c.e or self._coercible(v, vt, c.e) else self.join(c.e, vt))
        c2 = self.retype(c, e)
        lo, _, _ = self.slice_bounds(V.SliceV(i0, None, None), c2.n)
        term = self.pack(v, e)
        f = c2.at
        self.store(o.loc, SeqC(self._inc(c2.n), e, lambda i: z3.If(zint(i) < lo, f(zint(i)), z3.If(zint(i) == lo, term, f(zint(i) - 1)))))
        return None
    if name == 'index':
        if c.e is None:
            self.require(False, 'ValueError', 'not in list'); raise V.PathDead()
        w = self.fresh('ix', I)
        i = z3.Int('i!ix')
        ex = self.contains(o, args[0])
        self.require(ex, 'ValueError', 'not in list')
        zb = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x
        self.assume(z3.And(0 <= w, w < zint(c.n), zb(self.eq(args[0], self.unpack(c.e, c.at(w))))))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w), z3.Not(zb(self.eq(args[0], self.unpack(c.e, c.at(i))))))))
        return T(INT, w)
    if name == 'count':
        i = z3.Int('i!cnt')
        return self.sum_seq(c.n, INT, lambda j: z3.If(self.eq(args[0], self.unpack(c.e, c.at(j))), z3.IntVal(1), z3.IntVal(0)))
    raise Unsupported('list.%s' % name)


# ------------------------------------------------------------------ strings
def _sf(name, *sorts):
    return z3.Function('str_' + name, *sorts)


@vcm
def sterm(self, v):
    return self.pack(v, STR)


@vcm
def str_method(self, o, name, args):
    if isinstance(o, str) and all(isinstance(a, (str, int)) for a in args):
        r = getattr(o, name)(*args)
        if isinstance(r, list): return self.new_cell(self.seq_of_values(r, STR))
        return r
    t = self.sterm(o)
    if name == 'format':
        return self.fmt(o, args)
    if name in ('strip', 'rstrip', 'lstrip', 'lower', 'upper'):
        a = self.sterm(args[0]) if args else z3.IntVal(0)
        return T(STR, _sf(name, I, I, I)(t, a))
    if name in ('startswith', 'endswith'):
        x = args[0]
        if isinstance(x, tuple):
            return self.mkbool(self.disj([self.truth(self.str_method(o, name, [y])) for y in x]))
        return T(BOOL, _sf(name, I, I, B)(t, self.sterm(x)))
    if name in ('split', 'rsplit'):
        ty = ListT(STR)
        a = [self.sterm(args[0]) if args and args[0] is not None else z3.IntVal(0),
             self.intt(args[1]) if len(args) > 1 else z3.IntVal(-1)]
        f = _sf(name, I, I, I, ty.sort)
        term = f(t, *a)
        self.assume(ty.length(term) >= 0)
        if not args and z3.is_app(t) and t.decl().name() in (_sf('strip', I, I, I).name(), _sf('rstrip', I, I, I).name()) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 0:
            # what is left after stripping white space is empty or contains a word
            self.assume(z3.Or(t == self.sterm(''), ty.length(term) >= 1))
        if args and args[0] is not None:
            self.assume(ty.length(term) >= 1)
            if len(args) > 1:
                self.assume(ty.length(term) <= a[1] + 1)
        return self.new_cell(self.unpack_content(ty, term))
    if name == 'join':
        c = self.lift(args[0])
        if not isinstance(c, SeqC): c = self.seq_from_iter(self.iterate(args[0]))
        if c.e is None: return ''
        ty = ListT(STR)
        return T(STR, _sf('join', I, ty.sort, I)(t, self.pack(c, ty)))
    if name == 'replace':
        return T(STR, _sf('replace', I, I, I, I)(t, self.sterm(args[0]), self.sterm(args[1])))
    if name == 'index' or name == 'find':
        r = _sf('find', I, I, I)(t, self.sterm(args[0]))
        if name == 'index':
            self.require(r >= 0, 'ValueError', 'substring not found')
        return T(INT, r)
    if name in ('encode', 'decode'):
        return o
    if name in ('isdigit', 'isspace'):
        return T(BOOL, _sf(name, I, B)(t))
    raise Unsupported('str.%s' % name)


@vcm
def str_index(self, o, i):
    t = self.sterm(o)
    n = self.length(o)
    if isinstance(i, V.SliceV):
        lo = z3.IntVal(0) if i.lo is None else self.intt(i.lo)
        hi = z3.IntVal(10**9) if i.hi is None else self.intt(i.hi)
        if isinstance(o, str) and all(isinstance(x, (int, type(None))) for x in (i.lo, i.hi, i.step)):
            return o[i.lo:i.hi:i.step]
        return T(STR, _sf('slice', I, I, I, I)(t, lo, hi))
    ix = self.norm_index(i, n if isinstance(n, int) else n.t, 'string index')
    if isinstance(o, str) and isinstance(i, int): return o[i]
    return T(STR, _sf('char', I, I, I)(t, ix))


@vcm
def str_concat(self, a, b):
    if isinstance(a, str) and isinstance(b, str): return a + b
    return T(STR, _sf('cat', I, I, I)(self.sterm(a), self.sterm(b)))


@vcm
def fmt(self, tmpl, args):
    ts = []
    for a in args:
        if isinstance(a, T) and isinstance(a.ty, UnionT) and not self.spec_mode: a = self.split(a)
        try:
            ty = self.type_of(a)
            ts.append((ty, self.pack(a, ty)))
        except Unsupported:
            return T(STR, self.fresh('fmt', I))
    f = z3.Function('fmt_' + '_'.join(_san2(ty.name) for ty, _ in ts) + '_%d' % len(ts), *([I] + [ty.sort for ty, _ in ts] + [I]))
    return T(STR, f(self.sterm(tmpl), *[t for _, t in ts]))


def _san2(n): return ''.join(ch if ch.isalnum() else '_' for ch in n)


# ------------------------------------------------------------------ numpy
@vcm
def as_nd(self, v):
    v = self.split(v)
    c = self.content(v)
    if isinstance(c, NDArr): return c
    if isinstance(c, tuple): c = self.seq_of_values(c)
    if isinstance(c, Iter): c = self.seq_from_iter(c)
    if isinstance(c, SeqC):
        if c.e is None: return NDArr((0,), REAL, lambda i: z3.RealVal(0))
        if isinstance(c.e, (ListT, HTupT)) :
            e = c.e
            if hasattr(c, 'vals') and c.vals:
                n2 = self.length(c.vals[0])
                n2 = n2 if isinstance(n2, int) else n2.t
            else:
                n2 = z3.simplify(e.length(c.at(z3.IntVal(0))))
            iq = z3.Int('i!row')
            eq = z3.simplify(e.length(c.at(iq)) == n2)
            if not z3.is_true(eq):
                self.require(z3.ForAll([iq], z3.Implies(z3.And(0 <= iq, iq < zint(c.n)), eq)), 'ValueError', 'rows of equal length')
            return NDArr((c.n, n2), e.e, lambda i, j: z3.Select(e.arr(c.at(i)), j))
        if isinstance(c.e, TupT) and all(t == c.e.ts[0] for t in c.e.ts):
            e = c.e
            def at(i, j):
                r = e.get(c.at(i), len(e.ts) - 1)
                for q in range(len(e.ts) - 2, -1, -1):
                    r = z3.If(j == q, e.get(c.at(i), q), r)
                return r
            return NDArr((c.n, len(e.ts)), e.ts[0], at)
        return NDArr((c.n,), c.e, c.at, c.arr)
    if V.is_num(v):
        ty = self.type_of(v)
        t = self.pack(v, ty)
        return NDArr((), ty, lambda: t)
    raise Unsupported('array of %r' % (v,))


@vcm
def elementwise(self, vs, f):
    """Broadcast application of a scalar function."""
    arrs = []
    for v in vs:
        c = self.content(v) if not isinstance(v, NDArr) else v
        if isinstance(c, (SeqC, tuple, PyList)): c = self.as_nd(c if not isinstance(c, PyList) else tuple(c.vals))
        arrs.append(c if isinstance(c, NDArr) else None)
    nd = max(len(a.shape) for a in arrs if a is not None)
    shape = [None] * nd
    maps = []
    for a in arrs:
        if a is None:
            maps.append(None); continue
        off = nd - len(a.shape)
        m = []
        for d, s in enumerate(a.shape):
            cs = self.const_len(s)
            one = cs == 1
            m.append(one)
            cur = shape[off + d]
            if cur is None or self.const_len(cur) == 1:
                shape[off + d] = s
            elif not one and not z3.is_true(z3.simplify(zint(cur) == zint(s))):
                if self.tensor_mode: self.assume(zint(cur) == zint(s))
                else: self.require(zint(cur) == zint(s), 'ValueError', 'array shapes match')
        maps.append((off, m))
    # a dimension is broadcast only where the result dimension differs from one
    for a, mp in zip(arrs, maps):
        if mp is None: continue
        off, m = mp
        for d in range(len(m)):
            if m[d] and self.const_len(shape[off + d]) == 1: pass

    def vals(ix):
        out = []
        for v, a, mp in zip(vs, arrs, maps):
            if a is None:
                out.append(v); continue
            off, m = mp
            out.append(self.unpack(a.e, a.at(*[z3.IntVal(0) if m[d] else zint(ix[off + d]) for d in range(len(m))])))
        return out
    probe = [z3.Int('p!%d' % d) for d in range(nd)]
    self.spec_mode += 1
    try:
        e = self.type_of(f(*vals(probe)))
    finally:
        self.spec_mode -= 1

    def at(*ix):
        self.spec_mode += 1
        try:
            return self.pack(f(*vals(ix)), e)
        finally:
            self.spec_mode -= 1
    return self.new_cell(NDArr(shape, e, at))


@vcm
def nd_getitem(self, c, i, checked=False):
    if hasattr(i, 'select'): return i.select(self, c)
    checked = checked or self.tensor_mode
    if isinstance(i, tuple) and len(i) == 2 and len(c.shape) == 2 and not isinstance(i[0], V.SliceV) and not isinstance(i[1], V.SliceV):
        m = self.content(i[0])
        if isinstance(m, NDArr) and m.e == BOOL and len(m.shape) == 1 and not isinstance(self.content(i[1]), NDArr):
            return self.nd_getitem(self.content(self.nd_getitem(c, (V.SliceV(None, None, None), i[1]))), i[0])
    if isinstance(i, tuple):
        idx = list(i)
    else:
        idx = [i]
    if any(x is V.ELLIPSIS for x in idx):
        p = idx.index(V.ELLIPSIS)
        k = len(c.shape) - (len(idx) - 1)
        idx[p:p + 1] = [V.SliceV(None, None, None)] * k
    # boolean mask
    if len(idx) == 1:
        m = self.content(idx[0]) if not isinstance(idx[0], V.SliceV) else None
        if isinstance(m, SeqC) or isinstance(m, PyList): m = self.as_nd(m if isinstance(m, SeqC) else tuple(m.vals))
        if isinstance(m, NDArr) and m.e == BOOL:
            if len(m.shape) == 1 and len(c.shape) == 1:
                r = self.filter_seq(zint(c.shape[0]), c.e, lambda q: c.at(q), lambda q: m.at(q))
                a = NDArr((r.n,), r.e, r.at)
                a.filter = r.filter
                return self.new_cell(a)
            raise Unsupported('2-d boolean mask')
    dims, maps, shape = [], [], []
    nadv = 0
    advshape = None
    for x in idx:
        if x is None:
            shape.append(1); maps.append(('new',)); continue
        d = len(dims)
        if d >= len(c.shape):
            raise Unsupported('too many indices')
        dims.append(d)
        if isinstance(x, V.SliceV):
            if x.step is not None and not x.step == 1:
                st = self.split(x.step)
                if st == -1 and x.lo is None and x.hi is None:
                    n = zint(c.shape[d])
                    maps.append(('rev', n)); shape.append(c.shape[d]); continue
                lo, hi, _ = self.slice_bounds(V.SliceV(x.lo, x.hi, None), c.shape[d])
                t = self.intt(st)
                maps.append(('sl', lo, t)); shape.append(z3.If(hi > lo, (hi - lo + t - 1) / t, z3.IntVal(0))); continue
            lo, hi, ln = self.slice_bounds(x, c.shape[d])
            maps.append(('sl', lo, 1)); shape.append(ln)
            continue
        a = self.content(x)
        if isinstance(a, PyList): a = self.seq_of_values(a.vals)
        if isinstance(a, (SeqC, tuple)): a = self.as_nd(a)
        if isinstance(a, NDArr) and len(a.shape) == 0: a = None
        if isinstance(a, NDArr):
            nadv += 1
            maps.append(('adv', a))
            advshape = a.shape if advshape is None else advshape
            if not (self.spec_mode or checked):
                ix = [z3.Int('i!adv%d' % q) for q in range(len(a.shape))]
                rng = z3.And(*[z3.And(0 <= q, q < zint(s)) for q, s in zip(ix, a.shape)]) if ix else z3.BoolVal(True)
                v = a.at(*ix)
                self.require(z3.ForAll(ix, z3.Implies(rng, z3.And(v >= 0, v < zint(c.shape[d])))), 'IndexError', 'fancy index in range')
            continue
        t = self.intt(self.split(x)) if checked else self.norm_index(x, c.shape[d], 'array index')
        maps.append(('ix', t))
    rest = len(c.shape) - len(dims)
    for d in range(len(dims), len(c.shape)):
        maps.append(('sl', z3.IntVal(0), 1)); shape.append(c.shape[d])
    if nadv:
        # advanced indices are adjacent or single in this subset; result dims first position of adv
        pos = 0
        out = []
        done = False
        for m in maps:
            if m[0] == 'adv':
                if not done:
                    out += list(advshape); done = True
            elif m[0] == 'ix':
                pass
            else:
                out.append(shape[pos]); pos += 1
        shape = out

    def at(*ix):
        src = []
        p = 0
        adv0 = None
        for m in maps:
            if m[0] == 'new': p += 1
            elif m[0] == 'sl':
                v = zint(ix[p]); p += 1
                v = v * m[2] if not (isinstance(m[2], int) and m[2] == 1) else v
                lo = z3.simplify(m[1])
                src.append(v if z3.is_int_value(lo) and lo.as_long() == 0 else lo + v)
            elif m[0] == 'rev':
                src.append(m[1] - 1 - zint(ix[p])); p += 1
            elif m[0] == 'ix':
                src.append(m[1])
            else:
                if adv0 is None:
                    adv0 = p
                    p += len(advshape)
                src.append(m[1].at(*[zint(q) for q in ix[adv0:adv0 + len(m[1].shape)]]))
        return c.at(*src)
    if not shape:
        return self.unpack(c.e, at())
    return self.new_cell(NDArr(shape, c.e, at))


@vcm
def nd_setitem(self, o, c, i, v):
    idx = list(i) if isinstance(i, tuple) else [i]
    m0 = self.content(i) if not isinstance(i, (tuple, V.SliceV)) else None
    if isinstance(m0, NDArr) and m0.e == BOOL and len(m0.shape) == len(c.shape) > 1:
        if isinstance(self.content(v), (NDArr, SeqC, tuple, PyList)): raise Unsupported('masked array assignment')
        e = c.e if c.e in (INT, REAL, BOOL) else self.join(c.e, self.type_of(v))
        t = self.pack(v, e)
        old = self.nd_retype(c, e) if c.e != e else c
        self.store(o.loc, NDArr(c.shape, e, lambda *ix: z3.If(m0.at(*ix), t, old.at(*ix))))
        return
    if any(x is V.ELLIPSIS for x in idx):
        p = idx.index(V.ELLIPSIS)
        k = len(c.shape) - (len(idx) - 1)
        idx[p:p + 1] = [V.SliceV(None, None, None)] * k
    while len(idx) < len(c.shape): idx.append(V.SliceV(None, None, None))
    vc_ = self.content(v)
    if isinstance(vc_, (SeqC,)) or isinstance(vc_, tuple): vc_ = self.as_nd(v)
    conds, vix = [], []
    for d, x in enumerate(idx):
        m = self.content(x) if not isinstance(x, V.SliceV) else x
        if isinstance(m, V.SliceV):
            if m.step is not None: raise Unsupported('strided assignment')
            lo, hi, ln = self.slice_bounds(m, c.shape[d])
            conds.append(lambda q, lo=lo, hi=hi: z3.And(q >= lo, q < hi))
            vix.append((lambda q, lo=lo: q - lo, ln))
        elif isinstance(m, NDArr) and m.e == BOOL and len(m.shape) == 1:
            if isinstance(vc_, NDArr): raise Unsupported('masked array assignment')
            conds.append(lambda q, m=m: m.at(q))
            vix.append(None)
        elif isinstance(m, (NDArr, SeqC, PyList)):
            raise Unsupported('fancy assignment')
        else:
            t = self.norm_index(m, c.shape[d], 'array index')
            conds.append(lambda q, t=t: q == t)
            vix.append(None)
    f = c.at
    sl = [d for d in range(len(idx)) if vix[d] is not None]
    if isinstance(vc_, NDArr) and vc_.shape:
        off = len(sl) - len(vc_.shape)
        if off < 0: raise Unsupported('assignment shape')
        ones = []
        for j, s in enumerate(vc_.shape):
            want = vix[sl[off + j]][1]
            one = self.const_len(s) == 1 and self.const_len(want) != 1
            ones.append(one)
            if not one: self.require(zint(s) == zint(want), 'ValueError', 'assigned array shape')
        ve = vc_.e
        def val(ix):
            return self.pack(self.unpack(ve, vc_.at(*[z3.IntVal(0) if ones[j] else vix[sl[off + j]][0](ix[sl[off + j]])
                                             for j in range(len(vc_.shape))])), c.e)
    else:
        t = self.pack(v, c.e)
        val = lambda ix: t
    if c.rng is not None and c.e == INT and getattr(vc_, 'rng', None) != c.rng:
        qs = [self.fresh('el', z3.IntSort()) for _ in c.shape]
        v0 = val(qs)
        self.oblige('the stored value fits the element type of the array',
                    z3.Implies(z3.And(*[z3.And(q >= 0, q < zint(s_), cd(q)) for q, s_, cd in zip(qs, c.shape, conds)]), z3.And(v0 >= c.rng[0], v0 < c.rng[1])))
    if all(x is None for x in vix) and len(idx) == 1 and c.arr is not None and not isinstance(self.content(idx[0]), NDArr):
        t0 = self.norm_index(idx[0], c.shape[0], 'array index')
        arr = z3.Store(c.arr, t0, val([t0]))
        nc = NDArr(c.shape, c.e, lambda q: z3.Select(arr, zint(q)), arr)
        nc.rng = c.rng
        self.store(o.loc, nc)
        return

    def at(*ix):
        ix = [zint(q) for q in ix]
        return z3.If(z3.And(*[cd(q) for cd, q in zip(conds, ix)]), val(ix), f(*ix))
    nc = NDArr(c.shape, c.e, at)
    nc.rng = c.rng
    self.store(o.loc, nc)


@vcm
def nd_method(self, o, c, name, args, kw):
    if name in ('astype',):
        t = args[0]
        tn = getattr(t, 'name', t)
        tn = 'numpy.' + tn if isinstance(tn, str) and not tn.startswith('numpy') and tn != 'dtype' else tn
        if isinstance(tn, str) and 'float' in tn.lower() and c.e != REAL: return self.new_cell(self.nd_retype(c, REAL))
        if isinstance(tn, str) and tn == 'numpy.int8' and c.e != BOOL: pass
        if isinstance(tn, str) and 'int' in tn and c.e == BOOL: return self.new_cell(self.nd_retype(c, INT))
        if isinstance(tn, str) and 'bool' in tn and c.e != BOOL:
            f = c.at
            return self.new_cell(NDArr(c.shape, BOOL, lambda *ix: f(*ix) != 0))
        return self.new_cell(c)
    if name == 'copy': return self.new_cell(c)
    if name == 'nonzero' and self.tensor_mode:
        from contracts.tm import NonZero
        return NonZero(c)
    if name == 'sum': return nd_sum(self, c, args[0] if args else kw.get('axis'), kw.get('keepdims', False))
    if name in ('all', 'any'):
        return _quant(self, [o], {}, name == 'all')
    if name in ('max', 'min') and len(c.shape) == 1:
        return _minmax(self, [o], {}, name == 'min')
    if name == 'mean' and len(c.shape) == 1:
        return self.binop_s(ast.Div(), nd_total(self, c), self.mkint(zint(c.shape[0])))
    if name == 'tolist' and len(c.shape) == 1:
        return self.new_cell(SeqC(c.shape[0], c.e, c.at, c.arr))
    if name in ('reshape', 'flatten', 'ravel'):
        if len(c.shape) == 1 and name != 'reshape': return self.new_cell(c)
        if len(c.shape) == 2 and name != 'reshape':
            m = zint(c.shape[1])
            return self.new_cell(NDArr((zint(c.shape[0]) * m,), c.e, lambda i: c.at(i / m, i % m)))
    if name == 'item' and not c.shape: return self.unpack(c.e, c.at())
    raise Unsupported('array.%s' % name)


def _shape(vc, v):
    v = vc.split(v) if isinstance(v, T) else v
    c = vc.content(v)
    if isinstance(c, tuple): return tuple(x if isinstance(x, int) else vc.intt(x) for x in c)
    if isinstance(c, SeqC):
        m = vc.const_len(c.n)
        if m is not None: return tuple(vc.intt(vc.unpack(c.e, c.at(z3.IntVal(j)))) for j in range(m))
    if isinstance(c, int): return (c,)
    return (vc.intt(v),)


def _dt(k, a, pos=1):
    d = k.get('dtype', a[pos] if len(a) > pos else None)
    n = getattr(d, 'name', d)
    if isinstance(d, T): return REAL
    if n is None: return REAL
    if n == 'int' or 'int' in str(n): return INT
    if 'bool' in str(n): return BOOL
    return REAL


def _full(vc, shape, e, term, rng=None):
    for s in shape:
        if not isinstance(s, int): vc.require(s >= 0, 'ValueError', 'array dimension')
    c = NDArr(shape, e, lambda *ix: term)
    c.rng = rng
    return vc.new_cell(c)


def _rng(k, a, pos=1):
    """Range of an integer element type smaller than 64 bits."""
    d = k.get('dtype', a[pos] if len(a) > pos else None)
    n = str(getattr(d, 'name', d)).split('.')[-1]
    for b in (8, 16, 32):
        if n == 'int%d' % b: return (-2 ** (b - 1), 2 ** (b - 1))
        if n == 'uint%d' % b: return (0, 2 ** b)
    return None


def x_zeros(vc, a, k):
    if 'shape' in k: a = [k['shape']] + list(a)
    e = _dt(k, a)
    return _full(vc, _shape(vc, a[0]), e, {INT: z3.IntVal(0), REAL: z3.RealVal(0), BOOL: z3.BoolVal(False)}[e], _rng(k, a))


def x_ones(vc, a, k):
    if 'shape' in k: a = [k['shape']] + list(a)
    e = _dt(k, a)
    return _full(vc, _shape(vc, a[0]), e, {INT: z3.IntVal(1), REAL: z3.RealVal(1), BOOL: z3.BoolVal(True)}[e], _rng(k, a))


def x_full(vc, a, k):
    v = a[1]
    e = vc.type_of(v) if 'dtype' not in k else _dt(k, a, 2)
    return _full(vc, _shape(vc, a[0]), e, vc.pack(v, e))


def x_zeros_like(vc, a, k):
    c = vc.as_nd(a[0])
    e = c.e if 'dtype' not in k else _dt(k, a)
    return vc.new_cell(NDArr(c.shape, e, lambda *ix: vc.pack(0 if e != BOOL else False, e)))


def x_ones_like(vc, a, k):
    c = vc.as_nd(a[0])
    e = c.e if 'dtype' not in k else _dt(k, a)
    return vc.new_cell(NDArr(c.shape, e, lambda *ix: vc.pack(1 if e != BOOL else True, e)))


def x_array(vc, a, k):
    c = vc.as_nd(a[0])
    d = k.get('dtype', a[1] if len(a) > 1 else None)
    if d is not None and not (isinstance(d, V.TypeV) and d.name == 'object'):
        e = _dt({'dtype': d}, [])
        if c.e == OPAQUE or isinstance(c.e, UnionT): raise Unsupported('array of %s' % c.e)
        if e == REAL and c.e != REAL: c = vc.nd_retype(c, REAL)
        if e == INT and c.e == BOOL: c = vc.nd_retype(c, INT)
        if e == BOOL and c.e != BOOL:
            f = c.at
            c = NDArr(c.shape, BOOL, lambda *ix: f(*ix) != 0)
    return vc.new_cell(NDArr(c.shape, c.e, c.at, c.arr))


def x_transpose(vc, a, k):
    c = vc.as_nd(a[0])
    if len(a) > 1 or k or len(c.shape) > 2: raise Unsupported('transpose')
    if len(c.shape) < 2: return vc.new_cell(c)
    return vc.new_cell(NDArr((c.shape[1], c.shape[0]), c.e, lambda i, j: c.at(j, i)))


def x_arange(vc, a, k):
    if len(a) == 1: lo, hi = z3.IntVal(0), vc.intt(vc.split(a[0]))
    else: lo, hi = vc.intt(vc.split(a[0])), vc.intt(vc.split(a[1]))
    n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
    return vc.new_cell(NDArr((n,), INT, lambda i: lo + zint(i)))


def conc_sym(vc, parts, k):
    """numpy.concatenate of a list of unknown length: part j starts at the sum of the sizes of parts before it."""
    c = vc.content(parts)
    if not isinstance(c, SeqC) or not isinstance(c.e, NDT): raise Unsupported('concatenate')
    nd, ty, n = c.e.nd, c.e, zint(c.n)
    ax = k.get('axis', 0)
    if not isinstance(ax, int): raise Unsupported('axis')
    ax = ax % nd
    vc.require(n > 0, 'ValueError', 'concatenate of nothing')
    j = z3.Int('j!cc')
    part = c.at(j)
    p0 = c.at(z3.IntVal(0))
    same = [ty.dim(part, d) == ty.dim(p0, d) for d in range(nd) if d != ax]
    if same:
        vc.require(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(*same))), 'ValueError', 'concatenated dimensions agree')
    lam = z3.Lambda([j], ty.dim(part, ax))
    off = lambda m: SUMI(lam, m)
    total = vc.fresh('total', I)
    vc.assume(total == off(n))
    vc.assume(total >= 0)
    r = vc.fresh('conc', ty.sort)
    dims = [total if d == ax else ty.dim(p0, d) for d in range(nd)]
    for d in range(nd): vc.assume(ty.dim(r, d) == dims[d])
    ix = [z3.Int('i!c%d' % d) for d in range(nd)]
    src = ty.arr(part)
    for i in ix: src = z3.Select(src, i)
    dst = ty.arr(r)
    for d, i in enumerate(ix): dst = z3.Select(dst, off(j) + i if d == ax else i)
    rng = [z3.And(0 <= j, j < n)] + [z3.And(0 <= i, i < ty.dim(part, d)) for d, i in enumerate(ix)]
    try:
        vc.assume(z3.ForAll([j] + ix, z3.Implies(z3.And(*rng), dst == src), patterns=[src]))
    except z3.Z3Exception:
        vc.assume(z3.ForAll([j] + ix, z3.Implies(z3.And(*rng), dst == src)))
    return vc.unpack(ty, r)


def _conc(vc, a, k):
    parts = vc.lift(a[0])
    vals = parts.vals if isinstance(parts, PyList) or hasattr(parts, 'vals') else None
    if vals is None: return conc_sym(vc, parts, k)
    cs = [vc.as_nd(v) for v in vals]
    if any(len(c.shape) != 1 for c in cs): raise Unsupported('concatenate 2-d')
    r = SeqC(cs[0].shape[0], cs[0].e, cs[0].at, cs[0].arr)
    for c in cs[1:]:
        r = vc.concat_seq(r, SeqC(c.shape[0], c.e, c.at, c.arr))
    return vc.new_cell(NDArr((r.n,), r.e, r.at))


def x_where(vc, a, k):
    if len(a) == 3:
        return vc.elementwise(a, lambda c, x, y: vc.ite(vc.truth(c), x, y))
    raise Unsupported('numpy.where')


def _ufun(name, pre=None):
    f = z3.Function(name, R, R)
    def g(vc, a, k):
        v = a[0] if isinstance(a[0], Handle) else vc.split(a[0])
        c = vc.content(v)
        if isinstance(c, NDArr):
            return vc.elementwise([c], lambda x: g(vc, [x], {}))
        x = vc.real(v)
        if pre: pre(vc, x, f(x))
        return T(REAL, f(x))
    return g


LOG = z3.Function('LOG', R, R)
EXP = z3.Function('EXP', R, R)


def _log_pre(vc, x, r):
    vc.assume(z3.Implies(x > 0, EXP(LOG(x)) == x))
    vc.assume(LOG(z3.RealVal(1)) == 0)


def _exp_pre(vc, x, r):
    vc.assume(z3.And(EXP(x) > 0, LOG(EXP(x)) == x))


def m_log(vc, a, k):
    v = vc.split(a[0])
    if isinstance(v, (int, float)) and v <= 0:
        vc.require(False, 'ValueError', 'math domain'); raise V.PathDead()
    x = vc.real(v)
    if not isinstance(v, (int, float)): vc.require(x > 0, 'ValueError', 'math domain')
    _log_pre(vc, x, None)
    return T(REAL, LOG(x))


def x_isneginf(vc, a, k):
    f = z3.Function('isneginf', R, B)
    c = vc.content(a[0])
    if isinstance(c, NDArr):
        return vc.elementwise([c], lambda x: T(BOOL, f(vc.real(x))))
    return T(BOOL, f(vc.real(vc.split(a[0]))))


def x_bin(op):
    return lambda vc, a, k: vc.binop(op, a[0], a[1])


def x_cmp(op):
    def f(vc, a, k):
        r = vc.compare(op, a[0], a[1])
        return r if isinstance(r, (Handle, bool)) else T(BOOL, r)
    return f


def x_identity(vc, a, k): return a[0]


def x_logprob(vc, a, k):
    v = vc.split(a[0]) if not isinstance(a[0], Handle) else a[0]
    if isinstance(v, (int, float)): return float(v)
    if isinstance(v, str) or (isinstance(v, T) and v.ty == STR): return vc.call_type('float', [v], {})
    return T(REAL, vc.real(v))


def x_maximum(vc, a, k):
    return vc.elementwise(a, lambda x, y: vc.ite(vc.compare(ast.GtE(), x, y), x, y))


def x_minimum(vc, a, k):
    return vc.elementwise(a, lambda x, y: vc.ite(vc.compare(ast.LtE(), x, y), x, y))


def x_logical(kind):
    def f(vc, a, k):
        def g(*xs):
            ts = [vc.truth(x) for x in xs]
            return vc.mkbool(vc.conj(ts) if kind == 'and' else vc.disj(ts) if kind == 'or' else vc.neg(ts[0]))
        if not any(isinstance(vc.content(x), NDArr) for x in a):
            return g(*a)
        return vc.elementwise(a, g)
    return f


def x_count_nonzero(vc, a, k):
    c = vc.as_nd(a[0])
    d = NDArr(c.shape, INT, lambda *ix: z3.If(vc.truth(vc.unpack(c.e, c.at(*ix))), z3.IntVal(1), z3.IntVal(0)))
    return nd_total(vc, d)


def x_mean(vc, a, k):
    c = vc.as_nd(a[0])
    if len(c.shape) != 1: raise Unsupported('mean')
    n = zint(c.shape[0])
    vc.require(n > 0, 'ValueError', 'mean of empty')
    tot = nd_total(vc, NDArr(c.shape, REAL, vc.nd_retype(c, REAL).at))
    return vc.binop_s(ast.Div(), tot, vc.mkint(n))


MEDIAN = z3.Function('MEDIAN', z3.ArraySort(I, R), I, R)


def x_median(vc, a, k):
    c = vc.as_nd(a[0])
    c = vc.nd_retype(c, REAL)
    n = zint(c.shape[0])
    vc.require(n > 0, 'ValueError', 'median of empty')
    j = z3.Int('j!med')
    arr = c.arr if c.arr is not None else z3.Lambda([j], c.at(j))
    t = MEDIAN(arr, n)
    return T(REAL, t)


def x_isnan(vc, a, k):
    f = z3.Function('isnan', R, B)
    c = vc.content(a[0])
    if isinstance(c, NDArr): return vc.elementwise([c], lambda x: T(BOOL, f(vc.real(x))))
    return T(BOOL, f(vc.real(vc.split(a[0]))))


def x_isinf(vc, a, k):
    f = z3.Function('isinf', R, B)
    return T(BOOL, f(vc.real(vc.split(a[0]))))


EXTERNALS_ = {
    'numpy.transpose': x_transpose, 'numpy.zeros': x_zeros, 'numpy.ones': x_ones, 'numpy.full': x_full, 'numpy.zeros_like': x_zeros_like,
    'numpy.ones_like': x_ones_like, 'numpy.array': x_array, 'numpy.asarray': x_array, 'numpy.arange': x_arange,
    'numpy.concatenate': _conc, 'numpy.where': x_where, 'numpy.log': _ufun('LOG', _log_pre),
    'numpy.exp': _ufun('EXP', _exp_pre), 'numpy.isneginf': x_isneginf, 'numpy.sum': b_sum,
    'numpy.abs': b_abs, 'numpy.absolute': b_abs, 'numpy.maximum': x_maximum, 'numpy.minimum': x_minimum,
    'numpy.logical_and': x_logical('and'), 'numpy.logical_or': x_logical('or'), 'numpy.logical_not': x_logical('not'),
    'numpy.count_nonzero': x_count_nonzero, 'numpy.mean': x_mean, 'numpy.median': x_median,
    'numpy.isnan': x_isnan, 'numpy.isinf': x_isinf, 'math.isnan': x_isnan, 'math.isinf': x_isinf,
    'math.log': m_log, 'math.exp': _ufun('EXP', _exp_pre), 'logprob_type': x_logprob,
    'collections.OrderedDict': lambda vc, a, k: vc.call_type('dict', a, k),
    'numpy.copy': lambda vc, a, k: vc.new_cell(vc.as_nd(a[0])),
    'numpy.inf': float('inf'), 'math.inf': float('inf'), 'numpy.finfo': None,
    'numpy.min': b_min, 'numpy.max': b_max, 'numpy.all': b_all, 'numpy.any': b_any,
}
EXTERNALS_.pop('numpy.finfo')


# ------------------------------------------------------------------ specification builtins
def s_forall(vc, a, k): return _spec_quant(vc, a, True)
def s_exists(vc, a, k): return _spec_quant(vc, a, False)


def _spec_quant(vc, a, is_all):
    """forall(n, lambda i: ...), forall(lo, hi, lambda i: ...), forall('type', lambda x: ...)."""
    fn = a[-1]
    nargs = len(fn.node.args.args)
    vs, guards = [], []
    vals = []
    rest = list(a[:-1])
    if len(rest) == 1 and isinstance(rest[0], str):
        tys = [vc.world.ty(x) for x in rest[0].split(';')]
        for ty in tys:
            x = z3.Const('q!%d' % next(vc.counter), ty.sort)
            vs.append(x)
            vals.append(vc.unpack(ty, x))
    else:
        if len(rest) == 1:
            c = vc.content(rest[0])
            n = vc.length(rest[0]) if isinstance(c, (SeqC, DictC, NDArr, tuple, PyList)) else rest[0]
            rest = [0, n]
        lo, hi = vc.intt(rest[0]), vc.intt(rest[1])
        for j in range(nargs):
            x = z3.Const('q!%d' % next(vc.counter), I)
            vs.append(x)
            vals.append(T(INT, x))
            guards.append(z3.And(lo <= x, x < hi))
    p0 = len(vc.pc)
    for g in guards: vc.pc.append(g)
    c0 = next(vc.counter)
    body = vc.merged(lambda: vc.mkbool(vc.truth(vc.call(fn, vals, {}))))
    facts = vc.pc[p0 + len(guards):]
    del vc.pc[p0:]
    t = vc.truth(body)
    t = z3.BoolVal(t) if isinstance(t, bool) else t
    # facts produced while evaluating the body (definitions of fresh arrays and the like)
    names = [nm for nm in V.consts_of([t] + facts) if _fresh_after(nm, c0)]
    if names:
        from .evalmixin import _collect_consts
        subs = []
        for nm, cst in _collect_consts([t] + facts, set(names)):
            f = z3.Function('sk_' + nm, *([x.sort() for x in vs] + [cst.sort()]))
            subs.append((cst, f(*vs)))
        t = z3.substitute(t, *subs)
        facts = [z3.substitute(f, *subs) for f in facts]
    ids = {v.get_id() for v in vs}
    for f in facts:
        if _mentions(f, ids):
            g = z3.And(*guards) if guards else z3.BoolVal(True)
            vc.pc.append(z3.ForAll(vs, z3.Implies(g, f)))
        else:
            vc.pc.append(f)
    if is_all:
        return T(BOOL, z3.ForAll(vs, z3.Implies(z3.And(*guards), t) if guards else t))
    return T(BOOL, z3.Exists(vs, z3.And(*(guards + [t]))))


def _fresh_after(nm, c0):
    if '!' not in nm: return False
    s = nm.rsplit('!', 1)[1]
    return s.isdigit() and int(s) > c0


def _mentions(f, ids):
    seen, todo = set(), [f]
    while todo:
        x = todo.pop()
        if x.get_id() in ids: return True
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body())
        else: todo.extend(x.children())
    return False


def s_implies(vc, a, k):
    x, y = vc.truth(a[0]), vc.truth(a[1])
    return vc.mkbool(vc.disj([vc.neg(x), y]))


def s_iff(vc, a, k):
    x, y = vc.truth(a[0]), vc.truth(a[1])
    zb = lambda v: z3.BoolVal(v) if isinstance(v, bool) else v
    return T(BOOL, zb(x) == zb(y))


def s_SUM(vc, a, k):
    """SUM(n, lambda i: term)"""
    fn = a[1]
    n = vc.length(a[0]) if isinstance(vc.content(a[0]), (SeqC, NDArr, tuple)) else a[0]
    j = z3.Int('j!ty')
    e = vc.type_of(vc.call(fn, [T(INT, j)], {}))
    if e == BOOL: e = INT
    def at(i):
        return vc.pack(vc.call(fn, [T(INT, i)], {}), e)
    nt = vc.intt(n)
    jj = z3.Int('j!sum')
    arr = z3.Lambda([jj], at(jj))
    return T(e, (SUMR if e == REAL else SUMI)(arr, nt))


def s_ite(vc, a, k): return vc.ite(vc.truth(a[0]), a[1], a[2])
def s_exp(vc, a, k):
    x = vc.real(a[0]); _exp_pre(vc, x, None); return T(REAL, EXP(x))
def s_log(vc, a, k):
    x = vc.real(a[0]); _log_pre(vc, x, None); return T(REAL, LOG(x))


def s_alloc(vc, a, k): return T(INT, vc.st.alloc)
def s_id(vc, a, k):
    v = vc.split(a[0])
    return T(INT, v.t)
def s_same(vc, a, k):
    """Identity of interpreter-level references."""
    x, y = a
    if isinstance(x, Rec) and isinstance(y, Rec): return x.oid == y.oid
    return vc.mkbool(vc.eq(x, y))


def s_eqt(vc, a, k):
    """Equality of two containers as packed terms (stronger than elementwise equality)."""
    t = vc.type_of(a[1])
    if isinstance(vc.type_of(a[0]), UnionT): t = vc.type_of(a[0])
    return T(BOOL, vc.pack(a[0], t) == vc.pack(a[1], t))


def s_keyat(vc, a, k):
    """The j-th key of a dictionary in insertion order."""
    c = vc.content(a[0])
    return vc.unpack(c.kt, c.key(vc.intt(a[1])))


def s_keypos(vc, a, k):
    """The position of a key in insertion order."""
    c = vc.content(a[0])
    return T(INT, c.idx(vc.pack(a[1], c.kt)))


SPEC_ = {'eqt': s_eqt, 'keypos': s_keypos, 'keyat': s_keyat, 'forall': s_forall, 'exists': s_exists, 'implies': s_implies, 'iff': s_iff, 'SUM': s_SUM, 'ite': s_ite,
         'EXP': s_exp, 'LOG': s_log, 'alloc': s_alloc, 'ident': s_id, 'same': s_same}

PYB_ = {'len': b_len, 'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip, 'sum': b_sum, 'min': b_min,
        'max': b_max, 'sorted': b_sorted, 'reversed': b_reversed, 'any': b_any, 'all': b_all, 'abs': b_abs,
        'divmod': b_divmod, 'round': b_round, 'isinstance': b_isinstance, 'iter': b_iter, 'next': b_next, 'hash': b_hash,
        'map': b_map}
