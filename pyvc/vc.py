"""Symbolic executor and verification condition generator over the Python AST.

Paths are enumerated by re-execution with a decision prefix, so the evaluator
is written in direct style.  Loops are cut at invariants, calls to functions
under contract use the contract, other repository functions are inlined.
"""
import ast
import builtins as pybuiltins
import itertools
import os
import time
from fractions import Fraction

import z3

from .types import *
from . import types as ty_

z3.set_param('smt.random_seed', 0)
z3.set_param('memory_max_size', 3500)


class PyRaise(Exception):
    def __init__(self, cls, args=()): self.cls, self.eargs = cls, args
class ReturnX(Exception):
    def __init__(self, v): self.v = v
class BreakX(Exception): pass
class ContinueX(Exception): pass
class PathDead(Exception): pass


EXC_PARENT = {'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception',
              'ValueError': 'Exception', 'TypeError': 'Exception', 'AttributeError': 'Exception',
              'RuntimeError': 'Exception', 'StopIteration': 'Exception', 'AssertionError': 'Exception',
              'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception',
              'UnboundLocalError': 'NameError', 'NameError': 'Exception', 'OSError': 'Exception',
              'UnicodeDecodeError': 'ValueError', 'NotImplementedError': 'RuntimeError'}


class Frame:
    def __init__(self, vars, mod, cls=None, parent=None, fn=None):
        self.vars, self.mod, self.cls, self.parent, self.fn = vars, mod, cls, parent, fn


class State:
    def __init__(self):
        self.cells, self.objs, self.fields = {}, {}, {}
        self.alloc = None
        self.ghost = {}
    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.objs = {k: dict(v) for k, v in self.objs.items()}
        s.fields = dict(self.fields)
        s.alloc = self.alloc
        s.ghost = dict(self.ghost)
        return s


class Explorer:
    def __init__(self):
        self.pending = [()]
        self.prefix, self.pos, self.trace = (), 0, []


class Result:
    def __init__(self, kind, value, cond, snap): self.kind, self.value, self.cond, self.snap = kind, value, cond, snap


class FuncV:
    def __init__(self, node, mod, cls=None, frame=None, qual=None, defaults=None):
        self.node, self.mod, self.cls, self.frame, self.qual = node, mod, cls, frame, qual
        self.defaults = defaults
class BoundV:
    def __init__(self, fn, self_): self.fn, self.self_ = fn, self_
class ClassV:
    def __init__(self, node, mod, qual): self.node, self.mod, self.qual = node, mod, qual
    @property
    def name(self): return self.node.name
class ExcClassV:
    def __init__(self, name): self.name = name
class ModuleV:
    def __init__(self, path): self.path = path
class MethodV:
    def __init__(self, obj, name): self.obj, self.name = obj, name
class BuiltinV:
    def __init__(self, name, fn): self.name, self.fn = name, fn
class SuperV:
    def __init__(self, cls, self_): self.cls, self.self_ = cls, self_
class LambdaV(FuncV):
    pass
class TypeV:
    def __init__(self, name): self.name = name
class SliceV:
    def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step
class RangeV:
    def __init__(self, lo, hi, step=1): self.lo, self.hi, self.step = lo, hi, step
class GenV:
    """Lazy generator / one-shot iterator with a position held in a cell."""
    def __init__(self, it, cell): self.it, self.cell = it, cell
class Redirect:
    def __init__(self, loc): self.loc = loc
class UndefV:
    pass
ELLIPSIS = object()
NEWAXIS = object()


def zint(x):
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    return x


def is_num(v):
    return (isinstance(v, (int, float, Fraction)) or
            (isinstance(v, T) and v.ty in (INT, REAL, BOOL)))


def consts_of(t, acc=None):
    """Uninterpreted constants and functions occurring in term(s)."""
    acc = set() if acc is None else acc
    seen = set()
    todo = list(t) if isinstance(t, (list, tuple)) else [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, z3.AstRef):
            continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(d.name())
            todo.extend(x.children())
    return acc


class Obligation:
    def __init__(self, name, fn, assumptions, goal, extra=None):
        self.name, self.fn, self.assumptions, self.goal = name, fn, assumptions, goal


class Loop:
    """Loop contract: invariants over local names; k = completed iterations."""
    def __init__(self, inv=(), types=None, decreases=None, name=None, at_break=(), assume_exit=()):
        self.inv, self.types, self.decreases = list(inv), dict(types or {}), decreases
        self.name = name


class Contract:
    def __init__(self, spec, params=None, requires=(), ensures=(), raises=None, may_raise=(),
                 modifies=(), returns=None, loops=(), locals=None, assume_only=False, ghosts=None,
                 max_paths=400, lemmas=(), self_cls=None, opts=None, setup=None, note=None,
                 alloc=False, inline=()):
        self.spec, self.params, self.requires, self.ensures = spec, dict(params or {}), list(requires), list(ensures)
        self.raises, self.may_raise = dict(raises or {}), list(may_raise)
        self.modifies, self.returns, self.loops = list(modifies), returns, list(loops)
        self.locals, self.assume_only, self.max_paths = dict(locals or {}), assume_only, max_paths
        self.lemmas, self.opts, self.setup, self.note = list(lemmas), dict(opts or {}), setup, note
        self.alloc = alloc


class World:
    """Declarations shared by the contracts of one check."""
    def __init__(self):
        self.records = {}      # name -> RecT
        self.heap = {}         # heap class name -> {field: Ty}
        self.heap_map = {}     # 'path::Qual' -> heap class name
        self.rec_map = {}      # 'path::Qual' -> record name (class for methods)
        self.rec_src = {}      # record name -> 'path::Qual'
        self.contracts = {}    # 'path::Qual' -> Contract
        self.select = {}       # 'path::Qual' -> function that names the variant a call uses
        self.specfns = {}      # name -> python function (vc, args) -> value
        self.externals = {}    # dotted path -> python function (vc, args, kwargs)
        self.ref_methods = {}  # (heap class, name) -> python function (vc, object, args, kwargs)
        self.ref_content = {}  # heap class -> field that holds what `in`, len(), iteration and indexing see
        self.recfns = {}       # z3 function name -> unfold(term) -> [equations]
        self.axioms = []       # z3 formulas
        self.assumptions = []  # prose
        self.lemmas = []       # (name, hypotheses, goal)

    def record(self, name, src=None, **attrs):
        r = RecT(name)
        self.records[name] = r
        for k, v in attrs.items():
            r.attrs[k] = v if not isinstance(v, str) else parse_type(v, self.records)
        if src:
            self.rec_src[name] = src
            self.rec_map[src] = name
        return r

    def heap_class(self, cname_, src, **fields):
        self.heap[cname_] = {k: parse_type(v, self.records) for k, v in fields.items()}
        self.heap_map[src] = cname_

    def contract(self, spec, variant=None, **kw):
        c = Contract(spec, **kw)
        self.contracts[spec + ('#' + variant if variant else '')] = c
        return c

    def lemma(self, name, goal, hyps=()):
        self.lemmas.append((name, list(hyps), goal))

    def ty(self, s):
        return parse_type(s, self.records)


class VC:
    def __init__(self, repo, world, timeout_ms=150):
        self.repo, self.world = repo, world
        self.explorers = []
        self.obligations = []
        self.counter = itertools.count()
        self.feas_timeout = timeout_ms
        self.paths = 0
        self.spec_mode = 0
        self.handlers = []
        self.cur = None
        self.loopmap = None
        self.deadline = None
        self.inlined = set()
        self.used_contracts = set()
        self.used_externals = set()
        self.skipped_calls = set()
        self.decs = {}

    # ------------------------------------------------------------ basics
    def fresh(self, name, sort):
        return z3.Const('%s!%d' % (name, next(self.counter)), sort)

    @property
    def tensor_mode(self):
        """Arrays are immutable Theano expressions."""
        return bool(self.cur is not None and self.cur.opts.get('tensor'))

    def assume(self, f):
        if f is True or f is None:
            return
        if f is False:
            raise PathDead()
        if z3.is_true(f):
            return
        self.pc.append(f)

    def is_fresh_territory(self):
        return all(e.pos >= len(e.prefix) for e in self.explorers)

    def oblige(self, name, f, assume_after=True):
        if self.spec_mode:
            return
        if f is True or (isinstance(f, z3.ExprRef) and z3.is_true(f)):
            self.trivial = getattr(self, 'trivial', 0)
            if self.is_fresh_territory() and not self.muted:
                self.obligations.append(Obligation(name, self.cur_name, [], z3.BoolVal(True)))
            return
        if f is False:
            f = z3.BoolVal(False)
        if self.is_fresh_territory() and not self.muted:
            self.obligations.append(Obligation(name, self.cur_name, list(self.pc), f))
        if assume_after:
            self.assume(f)

    muted = 0

    def feasible(self, cond):
        if cond is None or cond is True:
            return True
        if cond is False:
            return False
        c = z3.simplify(cond)
        if z3.is_false(c): return False
        if z3.is_true(c): return True
        s = z3.SolverFor('ALL') if False else z3.Solver()
        s.set('timeout', self.feas_timeout)
        for p in self.pc:
            if not _has_quant(p):
                s.add(p)
        s.add(c)
        return s.check() != z3.unsat

    def choose(self, conds):
        """Nondeterministic choice among conditions (None = unconditional)."""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('path exploration exceeded its time budget')
        e = self.explorers[-1]
        if e.pos < len(e.prefix):
            d = e.prefix[e.pos]
        else:
            ok = [i for i, c in enumerate(conds) if self.feasible(c)]
            if not ok:
                raise PathDead()
            d = ok[0]
            for i in ok[1:]:
                e.pending.append(tuple(e.trace) + (i,))
            e.prefix = e.prefix + (d,)
        e.pos += 1
        e.trace.append(d)
        c = conds[d]
        if isinstance(c, z3.ExprRef):
            self.decs.setdefault(c.get_id(), c)
        self.assume(c)
        return d

    def is_dec(self, f):
        return f.get_id() in self.decs

    def guard_of(self, res):
        g = [f for f in res.cond if self.is_dec(f)]
        return z3.And(*g) if len(g) > 1 else (g[0] if g else z3.BoolVal(True))

    def branch(self, cond):
        """Forks on a boolean value; returns a Python bool."""
        if isinstance(cond, T):
            cond = cond.t
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.choose([cond, z3.Not(cond)]) == 0

    def snapshot(self):
        return (self.st.copy(), [(f, dict(f.vars)) for f in self.frames], list(self.frames), len(self.pc))

    def restore(self, snap, pc=None):
        st, frs, fl, _ = snap
        self.st = st.copy()
        for f, v in frs:
            f.vars = dict(v)
        self.frames = list(fl)

    def explore(self, fn, max_paths=200):
        """Runs fn on all paths from the current state; restores the state."""
        snap = self.snapshot()
        pc0 = list(self.pc)
        h0 = list(self.handlers)
        frame0 = self.frame
        ex = Explorer()
        self.explorers.append(ex)
        res = []
        try:
            while ex.pending:
                ex.prefix = ex.pending.pop()
                ex.pos, ex.trace = 0, []
                self.restore(snap)
                self.pc = list(pc0)
                self.handlers = list(h0)
                self.frame = frame0
                try:
                    try:
                        v = fn()
                        kind = 'ok'
                    except ReturnX as r:
                        kind, v = 'return', r.v
                    except PyRaise as r:
                        kind, v = 'raise', r
                    except BreakX:
                        kind, v = 'break', None
                    except ContinueX:
                        kind, v = 'continue', None
                except PathDead:
                    continue
                res.append(Result(kind, v, self.pc[len(pc0):], (self.snapshot(), self.frame)))
                if len(res) > max_paths:
                    raise Unsupported('too many paths')
        finally:
            self.explorers.pop()
            self.restore(snap)
            self.pc = list(pc0)
            self.handlers = list(h0)
            self.frame = frame0
        return res

    def adopt(self, res):
        """Continues from the final state of a result of explore()."""
        (snap, frame) = res.snap
        self.restore(snap)
        self.pc = self.pc + list(res.cond)
        self.frame = frame

    # ------------------------------------------------------------ types
    def content(self, v):
        """Contents of a container value (handles dereferenced)."""
        if isinstance(v, Handle):
            return self.load(v.loc)
        if isinstance(v, T) and isinstance(v.ty, RefT) and v.ty.cls in self.world.ref_content:
            return self.content(self.get_field(v.t, v.ty.cls, self.world.ref_content[v.ty.cls]))
        return v

    def type_of(self, v):
        if v is None: return NONE
        if isinstance(v, bool): return BOOL
        if isinstance(v, int): return INT
        if isinstance(v, (float, Fraction)): return REAL
        if isinstance(v, str): return STR
        if isinstance(v, T): return v.ty
        if isinstance(v, tuple): return TupT([self.type_of(x) for x in v])
        if isinstance(v, Handle): return self.type_of(self.load(v.loc))
        if isinstance(v, SeqC):
            if v.e is None: return None
            return (HTupT if v.htup else ListT)(v.e)
        if isinstance(v, NDArr): return NDT(v.e, len(v.shape))
        if isinstance(v, DictC): return DictT(v.kt, v.vt) if v.kt is not None else None
        if isinstance(v, SetC): return SetT(v.e) if v.e is not None else None
        if isinstance(v, Rec): return RecT(v.cls)
        if isinstance(v, RangeV):
            if v.step != 1: raise Unsupported('range with a step as a value')
            return RangeT()
        if isinstance(v, (FuncV, BoundV, ClassV, BuiltinV)): return OPAQUE
        raise Unsupported('type of %r' % (v,))

    def join(self, a, b):
        if a is None: return b
        if b is None: return a
        if a == b: return a
        nums = (BOOL, INT, REAL)
        if a in nums and b in nums:
            return nums[max(nums.index(a), nums.index(b))]
        if isinstance(a, TupT) and isinstance(b, TupT) and len(a.ts) == len(b.ts):
            return TupT([self.join(x, y) for x, y in zip(a.ts, b.ts)])
        if isinstance(a, UnionT):
            if isinstance(b, UnionT):
                r = a
                for x in b.alts: r = self.join(r, x)
                return r
            if b in a.alts: return a
            if b in nums:
                for x in a.alts:
                    if x in nums and not isinstance(x, UnionT):
                        j = self.join(x, b)
                        return UnionT([y for y in a.alts if y != x] + [j])
            return UnionT(a.alts + [b])
        if isinstance(b, UnionT):
            return self.join(b, a)
        if isinstance(a, ListT) and isinstance(b, ListT) and a.kind == b.kind:
            return type(a)(self.join(a.e, b.e))
        return UnionT([a, b])

    def pack(self, v, ty):
        """z3 term of sort ty.sort for value v."""
        if isinstance(v, T) and v.ty == ty:
            return v.t
        if isinstance(ty, UnionT):
            if isinstance(v, T) and isinstance(v.ty, UnionT):
                r = None
                for i, a in enumerate(v.ty.alts):
                    x = None if a == NONE else self.unpack(a, v.ty.val(v.t, i))
                    try:
                        p = self.pack(x, ty)
                    except Unsupported:
                        if self.feasible(v.ty.is_alt(v.t, i)):
                            raise
                        continue
                    r = p if r is None else z3.If(v.ty.is_alt(v.t, i), p, r)
                return r
            vt = self.type_of(v)
            cands = [(i, a) for i, a in enumerate(ty.alts) if a == vt]
            if not cands:
                cands = [(i, a) for i, a in enumerate(ty.alts) if self._coercible(v, vt, a)]
            if not cands:
                raise Unsupported('cannot store %s in %s' % (vt, ty))
            i, a = cands[0]
            return ty.con(i) if a == NONE else ty.con(i, self.pack(v, a))
        if isinstance(v, T) and isinstance(v.ty, UnionT):
            for i, a in enumerate(v.ty.alts):
                if a == ty or (a != NONE and ty in (INT, REAL) and a in (BOOL, INT)):
                    if not self.spec_mode:
                        self.oblige('type %s expected' % ty, v.ty.is_alt(v.t, i))
                    return self.pack(self.unpack(a, v.ty.val(v.t, i)), ty)
            raise Unsupported('cannot convert %s to %s' % (v.ty, ty))
        if ty == REAL:
            return self.real(v)
        if ty == INT:
            if isinstance(v, bool): return z3.IntVal(int(v))
            if isinstance(v, int): return z3.IntVal(v)
            if isinstance(v, T) and v.ty == BOOL: return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            if isinstance(v, T) and v.ty == REAL: return z3.ToInt(v.t)
        if ty == BOOL:
            if isinstance(v, bool): return z3.BoolVal(v)
        if ty == STR:
            if isinstance(v, str): return strcode(v)
        if ty == NONE:
            return z3.IntVal(0)
        if ty == OPAQUE:
            if isinstance(v, T): return v.t
            return self.fresh('opaque', z3.IntSort())
        if isinstance(ty, RefT):
            if isinstance(v, T) and isinstance(v.ty, RefT): return v.t
            if v is None: return z3.IntVal(-1)
        if isinstance(ty, TupT):
            if isinstance(v, T) and isinstance(v.ty, TupT):
                v = tuple(self.unpack(x, v.ty.get(v.t, i)) for i, x in enumerate(v.ty.ts))
            if isinstance(v, RangeV):
                v = (v.lo, v.hi)
            if isinstance(v, tuple) and len(v) == len(ty.ts):
                return ty.mk([self.pack(x, t) for x, t in zip(v, ty.ts)])
        c = self.content(v)
        if isinstance(ty, ListT):
            if isinstance(c, tuple):
                c = self.seq_of_values(c, ty.e)
            if isinstance(c, NDArr) and len(c.shape) == 1:
                c = SeqC(c.shape[0], c.e, c.at, c.arr)
            if isinstance(c, SeqC):
                c = self.retype(c, ty.e)
                return ty.mk(zint(c.n), self.arr_of(c))
        if isinstance(ty, NDT) and isinstance(c, NDArr) and len(c.shape) == ty.nd:
            c = self.nd_retype(c, ty.e)
            return ty.mk([zint(d) for d in c.shape], self.nd_arr(c))
        if isinstance(ty, DictT) and isinstance(c, DictC):
            return self.pack_dict(c, ty)
        if isinstance(ty, SetT) and isinstance(c, SetC):
            a = self.fresh('set', ty.sort)
            x = z3.Const('x!s', ty.e.sort)
            self.assume(z3.ForAll([x], z3.Select(a, x) == c.has(x), patterns=[z3.Select(a, x)]))
            return a
        raise Unsupported('cannot pack %r as %s' % (v, ty))

    def _coercible(self, v, vt, a):
        nums = (BOOL, INT, REAL)
        if vt in nums and a in nums:
            return nums.index(vt) <= nums.index(a)
        if vt is None and isinstance(a, (ListT, DictT)):
            return True
        if isinstance(vt, TupT) and isinstance(a, TupT) and len(vt.ts) == len(a.ts): return True
        if isinstance(vt, TupT) and isinstance(a, HTupT): return True
        return isinstance(vt, RefT) and isinstance(a, RefT)

    def retype(self, c, e):
        if c.e == e:
            return c
        if c.e is None:
            a = self.fresh('empty', z3.ArraySort(z3.IntSort(), e.sort))
            r = SeqC(c.n, e, lambda i: z3.Select(a, i), a, c.htup)
            r.base, r.appended = getattr(c, 'base', None), getattr(c, 'appended', ())
            return r
        f = c.at
        ce = c.e
        return SeqC(c.n, e, lambda i: self.pack(self.unpack(ce, f(i)), e), None, c.htup)

    def nd_retype(self, c, e):
        if c.e == e:
            return c
        f, ce = c.at, c.e
        return NDArr(c.shape, e, lambda *i: self.pack(self.unpack(ce, f(*i)), e))

    def arr_of(self, c):
        if c.arr is not None:
            return c.arr
        a = self.fresh('arr', z3.ArraySort(z3.IntSort(), c.e.sort))
        i = z3.Int('i!a')
        body = z3.Select(a, i) == c.at(i)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zint(c.n)), body), patterns=[z3.Select(a, i)]))
        c.arr = a
        return a

    def nd_arr(self, c):
        if c.arr is not None:
            return c.arr
        s = c.e.sort
        for _ in c.shape:
            s = z3.ArraySort(z3.IntSort(), s)
        a = self.fresh('nda', s)
        ix = [z3.Int('i!%d' % d) for d in range(len(c.shape))]
        t = a
        for i in ix: t = z3.Select(t, i)
        rng = [z3.And(0 <= i, i < zint(d)) for i, d in zip(ix, c.shape)]
        self.assume(z3.ForAll(ix, z3.Implies(z3.And(*rng), t == c.at(*ix)), patterns=[t]))
        c.arr = a
        return a

    def seq_of_values(self, vals, e=None, htup=False):
        if e is None:
            for v in vals:
                e = self.join(e, self.type_of(v))
        if e is None and not vals:
            return SeqC(0, None, None, htup=htup)
        terms = [self.pack(v, e) for v in vals]

        def at(i):
            if isinstance(i, int): return terms[i]
            s = z3.simplify(i)
            if z3.is_int_value(s) and 0 <= s.as_long() < len(terms):
                return terms[s.as_long()]
            if not terms:
                return z3.Const('none!', e.sort)
            r = terms[-1]
            for j in range(len(terms) - 2, -1, -1):
                r = z3.If(i == j, terms[j], r)
            return r
        r = SeqC(len(terms), e, at, htup=htup)
        r.vals = list(vals)
        return r

    def unpack(self, ty, term):
        """Value of a packed term (containers become fresh immutable copies)."""
        if ty == NONE: return None
        if isinstance(ty, RangeT):
            return RangeV(self.mkint(ty.get(term, 0)), self.mkint(ty.get(term, 1)))
        if isinstance(ty, TupT):
            return tuple(self.unpack(t, ty.get(term, i)) for i, t in enumerate(ty.ts))
        if isinstance(ty, HTupT):
            return self.unpack_content(ty, term)
        if isinstance(ty, (ListT, NDT, DictT, SetT)):
            return self.new_cell(self.unpack_content(ty, term))
        if isinstance(ty, UnionT):
            s = z3.simplify(term)
            for i, a in enumerate(ty.alts):
                b = z3.simplify(ty.is_alt(s, i))
                if z3.is_true(b):
                    return None if a == NONE else self.unpack(a, z3.simplify(ty.val(s, i)))
            return T(ty, term)
        return T(ty, term)

    def unpack_content(self, ty, term):
        if isinstance(ty, ListT):
            a = z3.simplify(ty.arr(term)) if False else ty.arr(term)
            n = ty.length(term)
            if z3.is_app(term) and term.decl().name() == _san(ty.name) + '_mk':
                n, a = term.arg(0), term.arg(1)
            return SeqC(n, ty.e, lambda i: z3.Select(a, zint(i)), a, ty.kind == 'htup')
        if isinstance(ty, NDT):
            a = ty.arr(term)
            def at(*ix):
                t = a
                for i in ix: t = z3.Select(t, zint(i))
                return t
            return NDArr([ty.dim(term, i) for i in range(ty.nd)], ty.e, at, a)
        if isinstance(ty, DictT):
            n, k, h, v, x = (ty.part(term, w) for w in ('n', 'key', 'has', 'val', 'idx'))
            return DictC(ty.k, ty.v, n, lambda i: z3.Select(k, zint(i)), lambda q: z3.Select(h, q),
                         lambda q: z3.Select(v, q), lambda q: z3.Select(x, q))
        if isinstance(ty, SetT):
            return SetC(ty.e, lambda q: z3.Select(term, q))
        raise Unsupported('content of %s' % ty)

    def pack_dict(self, c, ty):
        d = self.fresh('dict', ty.sort)
        n, k, h, v, x = (ty.part(d, w) for w in ('n', 'key', 'has', 'val', 'idx'))
        self.assume(n == zint(c.n))
        i = z3.Int('i!d'); q = z3.Const('q!d', ty.k.sort)
        kt, vt, key, val = c.kt, c.vt, c.key, c.val
        if c.kt is None:
            self.assume(z3.ForAll([q], z3.Not(z3.Select(h, q)), patterns=[z3.Select(h, q)]))
            return d
        if c.vt != ty.v:
            val = lambda qq, val=val: self.pack(self.unpack(vt, c.val(qq)), ty.v)
        if c.kt != ty.k:
            raise Unsupported('dictionary key type %s vs %s' % (c.kt, ty.k))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(k, i) == c.key(i)), patterns=[z3.Select(k, i)]))
        self.assume(z3.ForAll([q], z3.Select(h, q) == c.has(q), patterns=[z3.Select(h, q)]))
        self.assume(z3.ForAll([q], z3.Implies(c.has(q), z3.Select(v, q) == val(q)), patterns=[z3.Select(v, q)]))
        self.assume(z3.ForAll([q], z3.Implies(c.has(q), z3.Select(x, q) == c.idx(q)), patterns=[z3.Select(x, q)]))
        return d

    def wf(self, ty, term):
        """Well-formedness facts about a fresh term of a type."""
        out = []
        if isinstance(ty, ListT):
            out.append(ty.length(term) >= 0)
            out += self.wf_elems(ty.e, lambda i: z3.Select(ty.arr(term), i), ty.length(term))
        elif isinstance(ty, NDT):
            for i in range(ty.nd):
                out.append(ty.dim(term, i) >= 0)
        elif isinstance(ty, DictT):
            n, k, h, v, x = (ty.part(term, w) for w in ('n', 'key', 'has', 'val', 'idx'))
            i = z3.Int('i!w'); q = z3.Const('q!w', ty.k.sort)
            out.append(n >= 0)
            ki = z3.Select(k, i)
            out.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n),
                       z3.And(z3.Select(h, ki), z3.Select(x, ki) == i)), patterns=[ki]))
            xq = z3.Select(x, q)
            out.append(z3.ForAll([q], z3.Implies(z3.Select(h, q),
                       z3.And(0 <= xq, xq < n, z3.Select(k, xq) == q)), patterns=[z3.Select(h, q)]))
            if isinstance(ty.v, (ListT, RefT)):
                vq = z3.Select(v, q)
                w = self.wf(ty.v, vq)
                if w:
                    out.append(z3.ForAll([q], z3.Implies(z3.Select(h, q), z3.And(*w)), patterns=[vq]))
        elif isinstance(ty, TupT):
            for i, t in enumerate(ty.ts):
                out += self.wf(t, ty.get(term, i))
        elif isinstance(ty, UnionT):
            for i, a in enumerate(ty.alts):
                if a != NONE:
                    w = self.wf(a, ty.val(term, i))
                    if w:
                        out.append(z3.Implies(ty.is_alt(term, i), z3.And(*w)))
        elif isinstance(ty, RefT):
            if self.st.alloc is not None:
                out.append(z3.And(term >= 0, term < self.st.alloc))
        return out

    def wf_elems(self, e, at, n):
        i = z3.Int('i!e')
        w = self.wf(e, at(i))
        if not w:
            return []
        return [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(*w)), patterns=[at(i)])]

    def fresh_value(self, ty, name='v', wf=True):
        if isinstance(ty, RecT):
            return self.new_record(ty, name)
        if isinstance(ty, FnT):
            return BuiltinV(name, ty.fn)
        if isinstance(ty, type(lambda: 0)):
            return ty(self)
        if ty == NONE:
            return None
        if isinstance(ty, TupT) and not isinstance(ty, RangeT):
            return tuple(self.fresh_value(t, name) for t in ty.ts)
        if isinstance(ty, UnionT) and any(isinstance(a, (RecT, FnT)) for a in ty.alts):
            i = self.choose([None] * len(ty.alts))
            return self.fresh_value(ty.alts[i], name)
        t = self.fresh(name, ty.sort)
        if wf:
            for f in self.wf(ty, t):
                self.assume(f)
        return self.unpack(ty, t)

    def new_record(self, rt, name):
        rt = self.world.records.get(rt.cls, rt)
        oid = 'o%d_%s' % (next(self.counter), name)
        self.st.objs[oid] = {}
        for a, t in rt.attrs.items():
            self.st.objs[oid][a] = self.fresh_value(t, name + '.' + a) if isinstance(t, Ty) else \
                (t(self) if callable(t) else t)
        return Rec(oid, rt.cls)

    def new_cell(self, content):
        i = next(self.counter)
        self.st.cells[i] = content
        return Handle(('cell', i))

    # ------------------------------------------------------------ locations
    def load(self, loc):
        k = loc[0]
        if k == 'cell':
            c = self.st.cells[loc[1]]
            if isinstance(c, Redirect):
                return self.load(c.loc)
            return c
        if k == 'field':
            _, cls, f, ref = loc
            return self.unpack_content(self.world.heap[cls][f], z3.Select(self.field_arr(cls, f), ref))
        if k == 'elem':
            p = self.load(loc[1])
            return self.unpack_content(p.e, p.at(loc[2]))
        if k == 'dval':
            p = self.load(loc[1])
            return self.unpack_content(p.vt, p.val(loc[2]))
        raise Unsupported('load %r' % (loc,))

    def loc_type(self, loc):
        if loc[0] == 'field':
            return self.world.heap[loc[1]][loc[2]]
        if loc[0] == 'elem':
            return self.load(loc[1]).e
        if loc[0] == 'dval':
            return self.load(loc[1]).vt
        return None

    def store(self, loc, content):
        k = loc[0]
        if k == 'cell':
            c = self.st.cells[loc[1]]
            if isinstance(c, Redirect):
                return self.store(c.loc, content)
            self.st.cells[loc[1]] = content
            return
        ty = self.loc_type(loc)
        term = self.pack(content, ty)
        self.store_term(loc, term)

    def store_term(self, loc, term):
        k = loc[0]
        if k == 'field':
            _, cls, f, ref = loc
            self.st.fields[(cls, f)] = z3.Store(self.field_arr(cls, f), ref, term)
        elif k == 'elem':
            p = self.load(loc[1])
            i = zint(loc[2])
            if p.arr is not None:
                a = z3.Store(p.arr, i, term)
                self.store(loc[1], SeqC(p.n, p.e, lambda j: z3.Select(a, zint(j)), a, p.htup))
            else:
                f = p.at
                self.store(loc[1], SeqC(p.n, p.e, lambda j: z3.If(zint(j) == i, term, f(j)), None, p.htup))
        elif k == 'dval':
            p = self.load(loc[1])
            f, q = p.val, loc[2]
            self.store(loc[1], DictC(p.kt, p.vt, p.n, p.key, p.has, lambda x: z3.If(x == q, term, f(x)), p.idx))
        else:
            raise Unsupported('store')

    def field_arr(self, cls, f):
        key = (cls, f)
        if key not in self.st.fields:
            a = z3.Const('fld_%s_%s' % (cls, f), z3.ArraySort(z3.IntSort(), self.world.heap[cls][f].sort))
            self.st.fields[key] = a
        return self.st.fields[key]

    def get_field(self, ref, cls, f):
        ty = self.world.heap[cls][f]
        if isinstance(ty, ListT) and not self.spec_mode:
            self.assume(ty.length(z3.Select(self.field_arr(cls, f), ref)) >= 0)
        if isinstance(ty, DictT) and not self.spec_mode:
            for x in self.wf(ty, z3.Select(self.field_arr(cls, f), ref)): self.assume(x)
        if isinstance(ty, (ListT, NDT, DictT, SetT)) and not isinstance(ty, HTupT):
            return Handle(('field', cls, f, ref), ty)
        t = z3.Select(self.field_arr(cls, f), ref)
        return self.unpack(ty, t)

    def set_field(self, ref, cls, f, v):
        ty = self.world.heap[cls].get(f)
        if ty is None:
            raise Unsupported('field %s.%s not declared' % (cls, f))
        term = self.pack(v, ty)
        self.st.fields[(cls, f)] = z3.Store(self.field_arr(cls, f), ref, term)
        self.rehome(v, ('field', cls, f, ref))

    def rehome(self, v, loc):
        if isinstance(v, Handle) and v.loc[0] == 'cell':
            l = v.loc
            while isinstance(self.st.cells[l[1]], Redirect):
                l = self.st.cells[l[1]].loc
                if l[0] != 'cell':
                    return
            self.st.cells[l[1]] = Redirect(loc)

    # ------------------------------------------------------------ numbers
    def real(self, v):
        if isinstance(v, bool): return z3.RealVal(int(v))
        if isinstance(v, int): return z3.RealVal(v)
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return z3.Const('real_' + str(v).replace('-', 'm'), z3.RealSort())
            f = Fraction(str(v))
            return z3.RealVal(str(f))
        if isinstance(v, Fraction): return z3.RealVal(str(v))
        if isinstance(v, T):
            if v.ty == REAL: return v.t
            if v.ty == INT: return z3.ToReal(v.t)
            if v.ty == BOOL: return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
            if isinstance(v.ty, UnionT):
                v = self.split(v)
                return self.real(v)
        raise Unsupported('number expected, got %r' % (v,))

    def intt(self, v):
        if isinstance(v, bool): return z3.IntVal(int(v))
        if isinstance(v, int): return z3.IntVal(v)
        if isinstance(v, float) and v == int(v): return z3.IntVal(int(v))
        if isinstance(v, z3.ExprRef): return v
        if isinstance(v, T):
            if v.ty == INT: return v.t
            if v.ty == BOOL: return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            if isinstance(v.ty, UnionT): return self.intt(self.split(v))
        raise Unsupported('int expected, got %r' % (v,))

    def mkint(self, t):
        if isinstance(t, int): return t
        s = z3.simplify(t)
        if z3.is_int_value(s): return s.as_long()
        return T(INT, t)

    def split(self, v):
        """Forks on the alternatives of a union value."""
        if isinstance(v, T) and isinstance(v.ty, UnionT):
            u = v.ty
            i = self.choose([u.is_alt(v.t, i) for i in range(len(u.alts))])
            a = u.alts[i]
            return None if a == NONE else self.unpack(a, u.val(v.t, i))
        return v

    def truth(self, v):
        """z3 Bool or Python bool for the truth value."""
        if v is None: return False
        if isinstance(v, (bool, int, float, str, Fraction)): return bool(v)
        if isinstance(v, T):
            if v.ty == BOOL: return v.t
            if v.ty in (INT, REAL): return v.t != 0
            if v.ty == STR: return v.t != strcode('')
            if isinstance(v.ty, RefT): return True
            if isinstance(v.ty, UnionT):
                return self.truth(self.split(v))
        if isinstance(v, tuple): return len(v) > 0
        c = self.content(v)
        if isinstance(c, SeqC): return c.n > 0 if isinstance(c.n, int) else c.n > 0
        if isinstance(c, DictC): return c.n > 0
        if isinstance(c, NDArr) and len(c.shape) == 0: return self.truth(T(c.e, c.at()))
        if isinstance(c, (FuncV, BoundV, ClassV, BuiltinV, ModuleV, Rec)): return True
        raise Unsupported('truth of %r' % (v,))

    def eq(self, a, b):
        """z3 Bool / bool: a == b (value equality)."""
        if isinstance(a, (int, float, str, bool, Fraction, type(None))) and \
           isinstance(b, (int, float, str, bool, Fraction, type(None))):
            return a == b
        if is_num(a) and is_num(b):
            ta, tb = self.type_of(a), self.type_of(b)
            if REAL in (ta, tb): return self.real(a) == self.real(b)
            if ta == BOOL and tb == BOOL:
                return self.pack(a, BOOL) == self.pack(b, BOOL)
            return self.intt(a) == self.intt(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, Rec) and isinstance(b, Rec):
            return a.oid == b.oid
        if (a is None and isinstance(b, (Rec, Handle))) or (b is None and isinstance(a, (Rec, Handle))):
            return False
        ca, cb = self.content(a), self.content(b)
        if isinstance(ca, tuple) and isinstance(cb, SeqC): ca = self.seq_of_values(ca, cb.e, True)
        if isinstance(cb, tuple) and isinstance(ca, SeqC): cb = self.seq_of_values(cb, ca.e, True)
        if isinstance(ca, SeqC) and isinstance(cb, SeqC):
            return self.seq_eq(ca, cb)
        if isinstance(ca, SetC) and isinstance(cb, SetC):
            x = z3.Const('x!q', ca.e.sort)
            return z3.ForAll([x], ca.has(x) == cb.has(x))
        if isinstance(ca, NDArr) or isinstance(cb, NDArr):
            if self.spec_mode and isinstance(ca, NDArr) and isinstance(cb, NDArr):
                ix = [z3.Int('i!q%d' % d) for d in range(len(ca.shape))]
                sh = [zint(x) == zint(y) for x, y in zip(ca.shape, cb.shape)]
                rng = z3.And(*[z3.And(0 <= i, i < zint(d)) for i, d in zip(ix, ca.shape)])
                return z3.And(*(sh + [z3.ForAll(ix, z3.Implies(rng, self.eq_t(ca.e, ca.at(*ix), cb.e, cb.at(*ix))))]))
            raise Unsupported('array comparison as scalar')
        ta, tb = self.type_of(a), self.type_of(b)
        if ta == tb:
            return self.pack(a, ta) == self.pack(b, tb)
        if isinstance(ta, RefT) and isinstance(tb, RefT):
            return a.t == b.t
        if isinstance(ta, UnionT) or isinstance(tb, UnionT):
            alts_a = ta.alts if isinstance(ta, UnionT) else [ta]
            alts_b = tb.alts if isinstance(tb, UnionT) else [tb]
            nums = (BOOL, INT, REAL)
            if any(x in nums for x in alts_a) and any(x in nums for x in alts_b) or \
               any(isinstance(x, (HTupT, TupT)) for x in alts_a + alts_b):
                # numeric alternatives compare by value across types
                out = []
                for i, x in enumerate(alts_a):
                    for j, y in enumerate(alts_b):
                        va = a if not isinstance(ta, UnionT) else (None if x == NONE else self.unpack(x, ta.val(a.t, i)))
                        vb = b if not isinstance(tb, UnionT) else (None if y == NONE else self.unpack(y, tb.val(b.t, j)))
                        g = []
                        if isinstance(ta, UnionT): g.append(ta.is_alt(a.t, i))
                        if isinstance(tb, UnionT): g.append(tb.is_alt(b.t, j))
                        e = self.eq(va, vb)
                        if e is False: continue
                        out.append(z3.And(*(g + ([] if e is True else [e]))))
                return z3.Or(*out) if out else False
            j = self.join(ta, tb)
            return self.pack(a, j) == self.pack(b, j)
        return False

    def eq_t(self, ta, x, tb, y):
        r = self.eq(self.unpack(ta, x), self.unpack(tb, y))
        return z3.BoolVal(r) if isinstance(r, bool) else r

    def seq_eq(self, a, b):
        if isinstance(a.n, int) and isinstance(b.n, int) and a.n != b.n:
            return False
        if a.e is None or b.e is None:
            return zint(a.n) == zint(b.n)
        if isinstance(a.n, int) or isinstance(b.n, int):
            n = a.n if isinstance(a.n, int) else b.n
            if n <= 8:
                return self.conj([zint(a.n) == zint(b.n)] +
                                 [self.eq_t(a.e, a.at(z3.IntVal(i)), b.e, b.at(z3.IntVal(i))) for i in range(n)])
        i = z3.Int('i!q')
        return z3.And(zint(a.n) == zint(b.n),
                      z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zint(a.n)),
                                                self.eq_t(a.e, a.at(i), b.e, b.at(i)))))

    def conj(self, l):
        l = [x for x in l if x is not True]
        if any(x is False for x in l): return False
        if not l: return True
        return z3.And(*l) if len(l) > 1 else l[0]

    def disj(self, l):
        l = [x for x in l if x is not False]
        if any(x is True for x in l): return True
        if not l: return False
        return z3.Or(*l) if len(l) > 1 else l[0]

    def neg(self, x):
        if isinstance(x, bool): return not x
        return z3.Not(x)

    def mkbool(self, x):
        if isinstance(x, bool): return x
        s = z3.simplify(x)
        if z3.is_true(s): return True
        if z3.is_false(s): return False
        return T(BOOL, x)

    # ------------------------------------------------------------ exceptions
    def is_sub(self, name, target):
        while name is not None:
            if name == target: return True
            name = self.exc_parent(name)
        return target in ('Exception', 'BaseException')

    def exc_parent(self, name):
        if name in EXC_PARENT: return EXC_PARENT[name]
        if name in self.world_exc: return self.world_exc[name]
        return None

    world_exc = {}

    def require(self, ok, exc, label):
        """Implicit exception: raised when ok is false."""
        if self.spec_mode or ok is True:
            return
        if isinstance(ok, z3.ExprRef) and z3.is_true(z3.simplify(ok)):
            return
        catch = any(self.is_sub(exc, h) for hs in self.handlers for h in hs)
        c = self.cur
        if catch or exc in c.raises or exc in c.may_raise:
            if not self.branch(ok):
                raise PyRaise(exc)
        else:
            self.oblige('no %s: %s' % (exc, label), ok)

    # ------------------------------------------------------------ spec eval
    def spec(self, text, extra=None, frame=None):
        """Evaluates a specification expression to a z3 Bool."""
        if callable(text):
            self.spec_mode += 1
            try:
                r = text(self)
            finally:
                self.spec_mode -= 1
            r = self.truth(r) if not isinstance(r, (bool, z3.ExprRef)) else r
            return z3.BoolVal(r) if isinstance(r, bool) else r
        node = _parse_expr(text)
        saved = self.frame
        fr = frame or self.frame
        nf = Frame(dict(extra or {}), fr.mod, fr.cls, fr, fr.fn)
        self.frames.append(nf)
        self.frame = nf
        self.spec_mode += 1
        try:
            r = self.merged(node)
        finally:
            self.spec_mode -= 1
            self.frame = saved
        r = self.truth(r) if not isinstance(r, bool) else r
        return z3.BoolVal(r) if isinstance(r, bool) else r

    def spec_value(self, text, extra=None):
        node = _parse_expr(text)
        saved = self.frame
        nf = Frame(dict(extra or {}), self.frame.mod, self.frame.cls, self.frame, self.frame.fn)
        self.frames.append(nf)
        self.frame = nf
        self.spec_mode += 1
        try:
            return self.merged(node)
        finally:
            self.spec_mode -= 1
            self.frame = saved

    def merged(self, node_or_fn):
        """Evaluates with all forks merged into if-then-else terms."""
        fn = node_or_fn if callable(node_or_fn) else (lambda: self.eval(node_or_fn))
        rs = self.explore(fn)
        rs = [r for r in rs if r.kind == 'ok' or r.kind == 'return']
        if not rs:
            return True if self.spec_mode else UndefV()
        if len(rs) == 1:
            # keep new cells and facts
            self.adopt_cells(rs[0])
            return rs[0].value
        for r in rs:
            self.adopt_cells(r, facts=False)
            self.adopt_facts(r)
        return self.merge_results(rs)

    def adopt_facts(self, r):
        """Adds the facts of a path guarded by its earlier decisions."""
        g = []
        for f in r.cond:
            if self.is_dec(f):
                g.append(f)
            else:
                self.pc.append(z3.Implies(z3.And(*g), f) if g else f)

    def merge_results(self, rs):
        # decision conditions come first in cond; facts are included as well
        vals = [r.value for r in rs]
        if all(isinstance(v, (bool, T)) and (isinstance(v, bool) or v.ty == BOOL) for v in vals):
            r = None
            for x in reversed(rs):
                t = self.pack(x.value, BOOL)
                c = self.guard_of(x)
                r = t if r is None else z3.If(c, t, r)
            return self.mkbool(r)
        if all(isinstance(v, tuple) and len(v) == len(vals[0]) for v in vals):
            return tuple(self.merge_results([Result('ok', x.value[i], x.cond, None) for x in rs])
                         for i in range(len(vals[0])))
        e = None
        for v in vals:
            e = self.join(e, self.type_of(v))
        r = None
        for x in reversed(rs):
            t = self.pack(x.value, e)
            c = self.guard_of(x)
            r = t if r is None else z3.If(c, t, r)
        return self.unpack(e, r)

    def adopt_cells(self, res, facts=True):
        snap, _ = res.snap
        st = snap[0]
        for k, v in st.cells.items():
            if k not in self.st.cells:
                self.st.cells[k] = v
        for k, v in st.objs.items():
            if k not in self.st.objs:
                self.st.objs[k] = dict(v)
        for k, v in st.fields.items():
            if k not in self.st.fields:
                self.st.fields[k] = v
        if facts:
            self.pc.extend(res.cond)

    def with_snapshot(self, snap, fn):
        """Runs fn in an older state (for old() and entry())."""
        cur = self.snapshot()
        frame = self.frame
        st, frs, fl, _ = snap[0], snap[1], snap[2], snap[3]
        # keep cells created since
        s2 = st.copy()
        for k, v in self.st.cells.items():
            s2.cells.setdefault(k, v)
        for k, v in self.st.objs.items():
            s2.objs.setdefault(k, dict(v))
        for k, v in self.st.fields.items():
            if k not in s2.fields:
                s2.fields[k] = z3.Const('fld_%s_%s' % k, v.sort())
        self.st = s2
        try:
            saved = []
            for f, v in frs:
                saved.append((f, f.vars))
                f.vars = dict(v)
            try:
                r = fn()
            finally:
                for f, v in saved:
                    f.vars = v
        finally:
            newcells = {k: v for k, v in self.st.cells.items()}
            self.st = cur[0]
            for k, v in newcells.items():
                self.st.cells.setdefault(k, v)
            self.frame = frame
        return r


def _has_quant(t):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        todo.extend(x.children())
    return False


_expr_cache = {}


def _parse_expr(text):
    if text not in _expr_cache:
        _expr_cache[text] = ast.parse(text.strip(), mode='eval').body
    return _expr_cache[text]


from .types import _san
from . import evalmixin, builtinsmixin, verify  # noqa: E402
for _m in (evalmixin, builtinsmixin, verify):
    for _k, _v in vars(_m).items():
        if callable(_v) and getattr(_v, '_vc', False):
            setattr(VC, _k, _v)
