"""Loops, contract application, function verification and discharge."""
import ast
import os
import resource
import subprocess
import tempfile
import time
import traceback

import z3

from .types import *
from . import vc as V
from .evalmixin import PyList, PyDict, vcm
from .builtinsmixin import EXTERNALS_, SPEC_, PYB_, SUMR, SUMI

zint = V.zint
V.VC.EXTERNALS = EXTERNALS_
V.VC.SPEC_BUILTINS = SPEC_
V.VC.PYBUILTINS = PYB_
V.VC.depth = 0
V.VC.in_body = False


# ------------------------------------------------------------------ loops
@vcm
def loop_contract(self, s):
    return (self.loopmap or {}).get(id(s))


@vcm
def st_For(self, s):
    v = self.eval(s.iter)
    if isinstance(v, V.GenV):
        raise Unsupported('loop over an explicit iterator')
    it = self.iterate(v)
    lc = self.loop_contract(s)
    m = self.const_len(it.n)
    if lc is None and m is not None and m <= 16:
        broke = False
        for j in range(m):
            self.assign(s.target, it.at(z3.IntVal(j)))
            try:
                self.exec_block(s.body)
            except V.ContinueX:
                pass
            except V.BreakX:
                broke = True
                break
        if not broke:
            self.exec_block(s.orelse)
        return
    self.cut_loop(s, lc or V.Loop(), it)


@vcm
def st_While(self, s):
    lc = self.loop_contract(s)
    self.cut_loop(s, lc or V.Loop(), None)


def _same(a, b):
    if a is b: return True
    if isinstance(a, T) and isinstance(b, T): return a.ty == b.ty and a.t.eq(b.t)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, Handle) and isinstance(b, Handle): return a.loc == b.loc or (
        a.loc[0] == b.loc[0] and len(a.loc) == len(b.loc) and all(
            (x.eq(y) if isinstance(x, z3.AstRef) and isinstance(y, z3.AstRef) else (type(x) == type(y) and not isinstance(x, z3.AstRef) and x == y))
            for x, y in zip(a.loc, b.loc)))
    if isinstance(a, Rec) and isinstance(b, Rec): return a.oid == b.oid
    if isinstance(a, (int, float, str, bool, type(None))) and isinstance(b, (int, float, str, bool, type(None))):
        return type(a) == type(b) and a == b
    if isinstance(a, V.Redirect) and isinstance(b, V.Redirect): return a.loc == b.loc
    if isinstance(a, SeqC) and isinstance(b, SeqC) and a.e is None and b.e is None: return True
    return False


@vcm
def diff_state(self, before, res):
    """Locations whose value differs after a path of the loop body."""
    (st0, fr0, _, _) = before
    (snap, _) = res.snap
    st1, fr1 = snap[0], snap[1]
    out = {}
    v1 = {id(f): v for f, v in fr1}
    for f, v in fr0:
        w = v1.get(id(f), {})
        for k in set(v) | set(w):
            if k.startswith('$'):
                continue
            a, b = v.get(k, None if k in v else V.UndefV), w.get(k, None if k in w else V.UndefV)
            if k not in v: a = _UNDEF
            if k not in w: b = _UNDEF
            if not _same(a, b):
                out[('var', id(f), k)] = (a, b)
    for k, c in st0.cells.items():
        d = st1.cells.get(k)
        if not _same(c, d):
            out[('cell', k)] = (c, d)
    for k, o in st0.objs.items():
        p = st1.objs.get(k, {})
        for a in set(o) | set(p):
            if not _same(o.get(a, _UNDEF), p.get(a, _UNDEF)):
                out[('attr', k, a)] = (o.get(a, _UNDEF), p.get(a, _UNDEF))
    for k in set(st0.fields) | set(st1.fields):
        a = st0.fields.get(k)
        b = st1.fields.get(k)
        if a is None:
            a = z3.Const('fld_%s_%s' % k, b.sort())
        if b is None: continue
        if not a.eq(b):
            out[('field',) + k] = (a, b)
    if st0.alloc is not None and not st0.alloc.eq(st1.alloc):
        out[('alloc',)] = None
    return out


class _Undef:
    pass


_UNDEF = _Undef()


@vcm
def frame_by_id(self, i):
    for f in self.frames:
        if id(f) == i: return f
    return None


@vcm
def value_type_in(self, v, st):
    saved = self.st
    self.st = st
    try:
        return self.type_of(v)
    finally:
        self.st = saved


@vcm
def join_locs(self, M, before, res, hints, known=None):
    """Merges the differences of a dry run into the modified-set M: loc -> type."""
    d = self.diff_state(before, res)
    st1 = res.snap[0][0]
    grown = False
    for loc, ab in d.items():
        if loc[0] == 'cell' and known is not None and loc[1] not in known:
            continue       # created by the havoc of a variable: arbitrary in every iteration anyway
        if loc == ('alloc',):
            if loc not in M:
                M[loc] = True; grown = True
            continue
        if loc[0] == 'field':
            if loc not in M:
                M[loc] = True; grown = True
            continue
        a, b = ab
        name = loc[2] if loc[0] in ('var', 'attr') else None
        key = name if loc[0] == 'var' else ('.' + name if name else None)
        if key in hints:
            t = self.world.ty(hints[key])
        else:
            t = M.get(loc)
            try:
                if isinstance(a, _Undef) and loc[0] == 'var':
                    t = 'undef' if loc not in M else M[loc]
                elif isinstance(a, (V.UndefV,)) or isinstance(b, (V.UndefV, _Undef)):
                    t = 'undef'
                elif loc[0] == 'cell' and isinstance(a, V.Redirect):
                    raise Unsupported('container moved in a loop')
                elif loc[0] == 'cell' and isinstance(b, V.Redirect):
                    # stored into another structure: the alias is unusable afterwards
                    t = 'undef'
                elif isinstance(a, PyDict) and isinstance(b, PyDict) and set(a.d) == set(b.d):
                    t = dict(t or {})
                    for kk in a.d:
                        if not _same(a.d[kk], b.d[kk]):
                            t[kk] = self.join(self.join(t.get(kk), self.value_type_in(a.d[kk], before[0])), self.value_type_in(b.d[kk], st1))
                elif isinstance(a, Rec) or isinstance(b, Rec):
                    t = 'undef'
                elif isinstance(b, tuple) and len(b) == 2 and b[0] == 'pos':
                    t = 'pos'
                elif t != 'undef':
                    ta = self.value_type_in(a, before[0])
                    tb = self.value_type_in(b, st1)
                    t = self.join(self.join(t, ta), tb)
            except Unsupported:
                t = 'undef'
        if M.get(loc, 0) != t:
            M[loc] = t
            grown = True
    return grown


@vcm
def havoc(self, M):
    if ('alloc',) in M:
        a = self.fresh('alloc', z3.IntSort())
        self.assume(a >= self.st.alloc)
        self.st.alloc = a
    for loc, t in M.items():
        if loc == ('alloc',):
            continue
        if loc[0] == 'field':
            key = loc[1:]
            old = self.field_arr(*key)
            self.st.fields[key] = self.fresh('fld_%s_%s' % key, old.sort())
        elif loc[0] == 'var':
            f = self.frame_by_id(loc[1])
            if f is None: continue
            f.vars[loc[2]] = self.havoc_value(t, loc[2])
        elif loc[0] == 'attr':
            self.st.objs[loc[1]][loc[2]] = self.havoc_value(t, loc[2])
        elif loc[0] == 'cell':
            if isinstance(t, dict):
                d = dict(self.st.cells[loc[1]].d)
                for kk, ty in t.items(): d[kk] = self.havoc_value(ty, kk)
                self.st.cells[loc[1]] = PyDict(d)
            elif t == 'undef' or t is None:
                self.st.cells[loc[1]] = V.UndefV()
            else:
                was = self.st.cells[loc[1]]
                if t == 'pos':
                    p = self.fresh('pos', z3.IntSort())
                    self.assume(p >= 0)
                    self.st.cells[loc[1]] = ('pos', p)
                    continue
                c = self.content(self.fresh_value(t, 'h'))
                if isinstance(was, NDArr) and isinstance(c, NDArr) and len(was.shape) == len(c.shape):
                    # an array object never changes its shape or element type
                    for p, q in zip(was.shape, c.shape): self.assume(zint(p) == zint(q))
                    c = NDArr(was.shape, c.e, c.at, c.arr)
                    c.rng = was.rng
                self.st.cells[loc[1]] = c


@vcm
def havoc_value(self, t, name):
    if t == 'undef' or t is None or isinstance(t, RecT):
        return V.UndefV()
    return self.fresh_value(t, name)


@vcm
def heap_wf(self):
    """Reference-typed fields of allocated objects point to allocated objects."""
    return


@vcm
def cut_loop(self, s, lc, it):
    isfor = it is not None
    lbl = 'loop at line %d' % s.lineno
    n = zint(it.n) if isfor else None
    entry = self.snapshot()

    def extra(k):
        d = {'$entry': entry}
        if getattr(self, 'fn_old', None) is not None: d['$old'] = self.fn_old
        if isfor:
            d['_k'] = self.mkint(zint(k))
            d['_n'] = self.mkint(n)
        for nm, t in lc.types.items():
            # not assigned before the loop: arbitrary in the initial check
            if not nm.startswith('.') and nm not in self.frame.vars:
                d[nm] = self.fresh_value(self.world.ty(t), nm)
        return d

    def run_header(k):
        """Executes one iteration from an arbitrary state."""
        if isfor:
            self.assign(s.target, it.at(k))
        else:
            if not self.branch(self.truth(self.eval(s.test))):
                raise V.BreakX()   # loop exit; only used in the dry run
        try:
            self.exec_block(s.body)
        except V.ContinueX:
            pass

    # fixpoint of the modified set
    M = {}
    hints = dict(lc.types)
    for rnd in range(6):
        def dry():
            self.havoc(M)
            self.dry_snap = self.snapshot()
            if isfor:
                k = self.fresh('k', z3.IntSort())
                self.assume(z3.And(0 <= k, k < n))
            else:
                k = None
            self.assume_invs(lc, extra(k))
            snap = self.dry_snap
            try:
                run_header(k)
            finally:
                self.dry_end = snap
            return snap
        self.muted += 1
        snaps = []
        try:
            rs = self.explore_collect(dry)
        finally:
            self.muted -= 1
        grown = False
        for r, snap in rs:
            if r.kind in ('return', 'raise'):
                # does not come back to the loop head
                continue
            grown |= self.join_locs(M, snap, r, hints, set(entry[0].cells))
        if not grown:
            break
    else:
        raise Unsupported('modified set of %s does not stabilise %s' % (lbl, M))
    # initialisation
    for i, inv in enumerate(lc.inv):
        self.oblige('%s: invariant %d holds initially: %s' % (lbl, i, _short(inv)), self.spec(inv, extra(0)), assume_after=False)
    d = self.choose([None, None] if isfor or True else [None])
    self.havoc(M)
    if isfor:
        k = self.fresh('k', z3.IntSort()) if d == 0 else n
        if d == 0:
            self.assume(z3.And(0 <= k, k < n))
        else:
            self.assume(n >= 0)
        self.assume_invs(lc, extra(k))
        if d == 1:
            self.exec_block(s.orelse)
            return
        self.assign(s.target, it.at(k))
        try:
            self.exec_block(s.body)
        except V.ContinueX:
            pass
        except V.BreakX:
            return
        for i, inv in enumerate(lc.inv):
            self.oblige('%s: invariant %d preserved: %s' % (lbl, i, _short(inv)), self.spec(inv, extra(k + 1)), assume_after=False)
        raise V.PathDead()
    self.assume_invs(lc, extra(None))
    dec0 = self.intt(self.spec_value(lc.decreases)) if lc.decreases else None
    t = self.truth(self.eval(s.test))
    if d == 1:
        self.assume(self.neg(t) if not isinstance(t, bool) else (None if not t else False))
        self.exec_block(s.orelse)
        return
    self.assume(t if not isinstance(t, bool) else (None if t else False))
    try:
        self.exec_block(s.body)
    except V.ContinueX:
        pass
    except V.BreakX:
        return
    for i, inv in enumerate(lc.inv):
        self.oblige('%s: invariant %d preserved: %s' % (lbl, i, _short(inv)), self.spec(inv, extra(None)), assume_after=False)
    if dec0 is not None:
        self.oblige('%s: termination measure decreases: %s' % (lbl, lc.decreases),
                    z3.And(dec0 >= 0, self.intt(self.spec_value(lc.decreases)) < dec0), assume_after=False)
    raise V.PathDead()


def _short(t):
    return t if isinstance(t, str) and len(t) < 160 else (t[:157] + '...' if isinstance(t, str) else 'lemma')


@vcm
def assume_invs(self, lc, ex):
    for inv in lc.inv:
        self.assume(self.spec(inv, ex))


@vcm
def explore_collect(self, fn):
    """explore() that also keeps the state snapshot each path started from."""
    out = []
    def g():
        return fn()
    # explore restores state around each path, so remember the header snapshot per path
    ends = []
    def h():
        try:
            return fn()
        finally:
            ends.append(getattr(self, 'dry_end', None))
    # dead paths also append to ends; pair through an attribute on the result
    orig = self.explore
    rs = []
    def hh():
        self.dry_end = None
        try:
            v = fn()
        except V.PathDead:
            raise
        except (V.ReturnX, V.PyRaise, V.BreakX, V.ContinueX) as x:
            x.snap0 = self.dry_end
            rs.append(self.dry_end)
            raise
        rs.append(self.dry_end)
        return v
    res = self.explore(hh)
    # paths are recorded in the same order as results
    assert len(res) == len(rs), 'path bookkeeping'
    return list(zip(res, rs))


# ------------------------------------------------------------------ contracts at call sites
@vcm
def apply_contract(self, c, fn, args, kw):
    self.used_contracts.add(c.spec)
    vars = self.bind_args(fn, args, kw)
    for p, t in c.params.items():
        ty = self.world.ty(t) if isinstance(t, str) and t != 'opaque' else t
        if p in vars and isinstance(ty, NDT):
            # a contract only speaks about arguments of its types
            x = self.content(vars[p])
            if not isinstance(x, NDArr) or len(x.shape) != ty.nd: raise Unsupported('%s: argument %s is not an array of rank %d' % (c.spec.split('::')[1], p, ty.nd))
        elif p in vars and isinstance(ty, ListT):
            x = self.content(vars[p])
            if not isinstance(x, (SeqC, PyList)): raise Unsupported('%s: argument %s is not a list' % (c.spec.split('::')[1], p))
    fr = V.Frame(vars, fn.mod, fn.cls, None, fn.qual)
    self.frames.append(fr)
    short = c.spec.split('::')[1]
    for r in c.requires:
        f = self.spec(r, None, fr)
        self.oblige('call of %s: precondition %s' % (short, _short(r)), f)
    for exc, cond in c.raises.items():
        t = self.spec(cond, None, fr)
        catch = any(self.is_sub(exc, h) for hs in self.handlers for h in hs)
        if catch or exc in self.cur.raises or exc in self.cur.may_raise:
            if self.branch(t): raise V.PyRaise(exc)
        else:
            self.oblige('call of %s: no %s' % (short, exc), z3.Not(t))
    for exc in c.may_raise:
        catch = any(self.is_sub(exc, h) for hs in self.handlers for h in hs)
        if catch or exc in self.cur.raises or exc in self.cur.may_raise:
            if self.choose([None, None]) == 1: raise V.PyRaise(exc)
        else:
            raise Unsupported('%s may raise %s' % (short, exc))
    old = self.snapshot()
    if c.alloc and self.st.alloc is not None:
        a = self.fresh('alloc', z3.IntSort())
        self.assume(a >= self.st.alloc)
        self.st.alloc = a
    for m in c.modifies:
        self.havoc_target(m, fr, c)
    if callable(c.returns) and not isinstance(c.returns, (str, Ty)):
        res = c.returns(self, vars)
    elif c.returns is None:
        res = None
    else:
        res = self.fresh_value(self.world.ty(c.returns) if isinstance(c.returns, str) else c.returns, 'ret_' + short.split('.')[-1])
    for e in c.ensures:
        self.assume(self.spec(e, {'result': res, '$old': old}, fr))
    return res


@vcm
def havoc_target(self, m, fr, c):
    """modifies entries: 'self.x', 'param' (container contents), 'Class.field' (whole heap field)."""
    if m[0].isupper() and '.' in m:
        cls, f = m.split('.')
        old = self.field_arr(cls, f)
        self.st.fields[(cls, f)] = self.fresh('fld_%s_%s' % (cls, f), old.sort())
        return
    node = V._parse_expr(m)
    saved = self.frame
    self.frame = fr
    try:
        if isinstance(node, ast.Attribute):
            o = self.eval(node.value)
            if isinstance(o, Rec):
                rt = self.world.records[o.cls]
                t = rt.attrs.get(node.attr)
                cur = self.st.objs[o.oid].get(node.attr)
                if isinstance(cur, Handle):
                    ty = t if isinstance(t, Ty) and not isinstance(t, UnionT) else self.type_of(cur)
                    self.st.objs[o.oid][node.attr] = self.fresh_value(ty, node.attr)
                else:
                    self.st.objs[o.oid][node.attr] = self.fresh_value(t if isinstance(t, Ty) else self.type_of(cur), node.attr)
                return
            if isinstance(o, T) and isinstance(o.ty, RefT):
                ty = self.world.heap[o.ty.cls][node.attr]
                t = self.fresh(node.attr, ty.sort)
                for w in self.wf(ty, t): self.assume(w)
                self.store_term(('field', o.ty.cls, node.attr, o.t), t)
                return
        v = self.eval(node)
        if isinstance(v, Handle):
            ty = self.type_of(v)
            nv = self.fresh_value(ty, 'mod')
            self.store(v.loc, self.content(nv))
            return
    finally:
        self.frame = saved
    raise Unsupported('modifies ' + m)


# ------------------------------------------------------------------ loops of a function
@vcm
def collect_loops(self, fn, seen=None):
    """Loop statements in source order, expanding helpers that are inlined."""
    seen = set() if seen is None else seen
    out = []
    local = {}

    def visit(n):
        if isinstance(n, (ast.For, ast.While)):
            if isinstance(n, ast.For):
                visit(n.iter)
            else:
                visit(n.test)
            out.append(n)
            for x in n.body: visit(x)
            for x in n.orelse: visit(x)
            return
        if isinstance(n, ast.FunctionDef):
            local[n.name] = n
            return
        if isinstance(n, ast.Lambda):
            return
        for ch in ast.iter_child_nodes(n):
            visit(ch)
        if isinstance(n, ast.Call):
            callee = None
            f = n.func
            if isinstance(f, ast.Name):
                if f.id in local:
                    if f.id not in seen:
                        seen.add(f.id)
                        for x in local[f.id].body: visit(x)
                    return
                d = fn.mod.defs.get(f.id)
                if isinstance(d, ast.FunctionDef):
                    callee = V.FuncV(d, fn.mod, None, None, '%s::%s' % (fn.mod.path, f.id))
                elif isinstance(d, ast.ClassDef):
                    for b in d.body:
                        if isinstance(b, ast.FunctionDef) and b.name == '__init__':
                            cv = V.ClassV(d, fn.mod, '%s::%s' % (fn.mod.path, f.id))
                            callee = V.FuncV(b, fn.mod, cv, None, cv.qual + '.__init__')
            elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('self', 'cls') and fn.cls is not None:
                m = self.class_member(fn.cls, f.attr)
                if isinstance(m, V.FuncV): callee = m
            if callee is not None and callee.qual not in self.world.contracts and callee.qual not in self.world.select and callee.qual not in seen:
                seen.add(callee.qual)
                out.extend(self.collect_loops(callee, seen))
    for x in fn.node.body: visit(x)
    return out


# ------------------------------------------------------------------ function verification
class FnResult:
    def __init__(self, spec):
        self.spec = spec
        self.status = None       # 'ok' | 'failed' | 'unsupported' | 'unknown'
        self.detail = None
        self.obls = []           # dicts
        self.paths = 0
        self.inlined, self.contracts, self.externals, self.skipped = [], [], [], []
        self.solver_s = 0.0
        self.vacuity = None


@vcm
def gen_function(self, c):
    """Generates the obligations of one function under contract."""
    f = self.repo.find(c.spec)
    if f is None:
        raise Unsupported('function %s not found' % c.spec)
    mod, classes, node = f
    if not isinstance(node, ast.FunctionDef):
        raise Unsupported('%s is not a function' % c.spec)
    cls = None
    if classes:
        cls = V.ClassV(classes[-1], mod, c.spec.rsplit('.', 1)[0])
    fn = V.FuncV(node, mod, cls, None, c.spec)
    self.cur, self.cur_name = c, c.spec
    self.pc, self.st = [], V.State()
    self.dyn_src = {}
    self.frames = []
    self.handlers = []
    self.frame = V.Frame({}, mod, cls)
    self.st.alloc = z3.Int('alloc!0')
    self.exit_conds = []
    loops = self.collect_loops(fn)
    want = [l for l in c.loops]
    if want and len(want) != len(loops):
        raise Unsupported('loop structure of %s changed (%d loops, contract has %d)' % (c.spec, len(loops), len(want)))
    self.loopmap = {id(n): l for n, l in zip(loops, want) if l is not None}
    self._keep = loops
    kinds = []

    def run():
        self.assume(self.st.alloc >= 0)
        vars = {}
        names = [a.arg for a in node.args.args + node.args.kwonlyargs]
        if node.args.kwarg: names.append(node.args.kwarg.arg)
        if node.args.vararg: names.append(node.args.vararg.arg)
        for p in names:
            if p in c.params:
                t = c.params[p]
                if callable(t) and not isinstance(t, Ty):
                    vars[p] = t(self)
                else:
                    vars[p] = self.fresh_value(self.world.ty(t) if isinstance(t, str) else t, p)
            elif p == 'self' and cls is not None:
                q = cls.qual
                if q in self.world.heap_map:
                    h = self.world.heap_map[q]
                    vars[p] = self.fresh_value(RefT(h), 'self')
                else:
                    rn = c.opts.get('self_rec') or self.world.rec_map.get(q)
                    if rn is None: raise Unsupported('no record for %s' % q)
                    vars[p] = self.new_record(self.world.records[rn], 'self')
            elif p == 'cls' and cls is not None:
                vars[p] = cls
            else:
                dl = dict(zip([a.arg for a in node.args.args][len(node.args.args) - len(node.args.defaults):], node.args.defaults))
                if p in dl:
                    fr0 = self.frame
                    vars[p] = self.eval(dl[p])   # extra parameter with a default value
                else:
                    raise Unsupported('parameter %s of %s has no declared type' % (p, c.spec))
        for p in c.params:
            if p not in names and not p.startswith('_'):
                raise Unsupported('parameter %s of %s is gone' % (p, c.spec))
        if c.setup: c.setup(self, vars)
        ghosts = {p: self.fresh_value(self.world.ty(t), p) for p, t in c.params.items() if p.startswith('_') and isinstance(t, str)}
        pf = V.Frame(dict(vars, **ghosts), mod, cls, None, c.spec)
        self.frames.append(pf)
        for r in c.requires:
            self.assume(self.spec(r, None, pf))
        self.entry_pc = list(self.pc)
        fr = V.Frame(dict(vars, **{'$hints': {k: self.world.ty(v) for k, v in c.locals.items()}}), mod, cls, None, c.spec)
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node))
        if gen:
            fr.vars['$yield'] = self.new_cell(SeqC(0, None, None))
            if c.returns:
                fr.vars['$yield'] = self.coerce(fr.vars['$yield'], self.world.ty(c.returns))
        self.frames.append(fr)
        old = self.snapshot()
        self.fn_old = old
        saved = self.frame
        self.frame = fr
        self.in_body = True
        try:
            try:
                self.exec_block(node.body)
                r = None
            except V.ReturnX as x:
                r = x.v
            if gen: r = fr.vars['$yield']
            exc = None
        except V.PyRaise as x:
            exc = x
        finally:
            self.in_body = False
        self.frame = saved
        self.handlers = []
        ex = {'$old': old}
        def oldspec(text):
            return self.with_snapshot(old, lambda: self.spec(text, dict(ex), pf))
        if exc is not None:
            kinds.append('raise ' + exc.cls)
            if exc.cls in c.raises:
                self.oblige('raises %s only when %s' % (exc.cls, _short(c.raises[exc.cls])), oldspec(c.raises[exc.cls]), False)
            elif any(self.is_sub(exc.cls, m) for m in c.may_raise):
                pass
            else:
                self.oblige('no %s is raised' % exc.cls, False, False)
            for e in c.opts.get('ensures_raise', ()):
                self.oblige('on exception: ' + _short(e), self.spec(e, ex, pf), False)
            return None
        kinds.append('return')
        for e_, cond in c.raises.items():
            self.oblige('returns normally only unless %s' % _short(cond), z3.Not(oldspec(cond)), False)
        ex['result'] = r
        if c.opts.get('expose_locals'):
            for k, v in fr.vars.items():
                if not k.startswith('$'): ex.setdefault(k, v)
        for l in c.lemmas:
            if callable(l): l(self, ex, pf)
            else:
                self.oblige('lemma: ' + _short(l), self.spec(l, ex, pf), True)
        for e in c.ensures:
            self.oblige('ensures ' + _short(e), self.spec(e, ex, pf), False)
        self.exit_conds.append(list(self.pc))
        return None
    self.explore(run, c.max_paths)
    self.paths = len(kinds)
    if 'return' not in kinds and not c.opts.get('never_returns'):
        raise Unsupported('no path of %s returns' % c.spec)
    return kinds


# ------------------------------------------------------------------ queries
def _apps(fs, names):
    """Ground applications of the named functions."""
    out, seen = {}, {}

    def ground(t):
        todo, s2 = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in s2: continue
            s2.add(x.get_id())
            if z3.is_var(x): return False
            if z3.is_quantifier(x):
                if not x.is_lambda(): return False
                # a closed lambda: its body mentions bound variable 0 only
                if not _closed(x): return False
                continue
            todo.extend(x.children())
        return True
    todo = list(fs)
    vis = set()
    while todo:
        x = todo.pop()
        if x.get_id() in vis: continue
        vis.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().name() in names and x.num_args() and ground(x):
                out[x.get_id()] = x
            todo.extend(x.children())
    return list(out.values())


def _closed(l):
    def rec(t, d):
        if z3.is_var(t): return z3.get_var_index(t) < d
        if z3.is_quantifier(t): return rec(t.body(), d + t.num_vars())
        return all(rec(c, d) for c in t.children())
    return rec(l.body(), l.num_vars())


@vcm
def expand(self, fs, rounds=3):
    """Ground instances of the defining equations of recursive functions."""
    extra = []
    done = set()
    names = set(self.world.recfns) | {'SUMR', 'SUMI'}
    for _ in range(rounds):
        new = []
        for t in _apps(fs + extra, names):
            if t.get_id() in done: continue
            done.add(t.get_id())
            nm = t.decl().name()
            if nm in ('SUMR', 'SUMI'):
                a, n = t.arg(0), t.arg(1)
                zero = z3.RealVal(0) if nm == 'SUMR' else z3.IntVal(0)
                new.append(z3.Implies(n <= 0, t == zero))
                prev = t.decl()(a, z3.simplify(n - 1))
                new.append(z3.Implies(n > 0, t == prev + z3.simplify(z3.Select(a, n - 1))))
            else:
                new += self.world.recfns[nm](t)
        if not new: break
        extra += new
    sums = _apps(fs + extra, {'SUMR', 'SUMI'})
    if len(sums) <= 40:
        for i, x in enumerate(sums):
            for y in sums[:i]:
                if x.decl().name() != y.decl().name(): continue
                if x.arg(0).eq(y.arg(0)): 
                    extra.append(z3.Implies(x.arg(1) == y.arg(1), x == y))
                    continue
                d = z3.Const('diff!%d_%d' % (x.get_id(), y.get_id()), z3.IntSort())
                ax, ay = z3.simplify(z3.Select(x.arg(0), d)), z3.simplify(z3.Select(y.arg(0), d))
                extra.append(z3.Or(x.arg(1) != y.arg(1), x == y,
                                   z3.And(0 <= d, d < x.arg(1), ax != ay)))
    return extra


def _congruence(fs, lam):
    """Sums of pointwise equal arrays agree, for every bound (lam: constant -> lambda)."""
    extra = []
    arrs = {}
    for nm in ('SUMR', 'SUMI'):
        for a in _sum_arrays(fs, nm): arrs.setdefault(nm, {})[a.get_id()] = a
    for nm, d in arrs.items():
        l = list(d.values())
        if len(l) > 8: continue
        F = SUMR if nm == 'SUMR' else SUMI
        m = z3.Int('m!cong')
        for i, x in enumerate(l):
            for y in l[:i]:
                df = z3.Function('cong!%d_%d' % (x.get_id(), y.get_id()), z3.IntSort(), z3.IntSort())
                q = df(m)
                ax, ay = (z3.simplify(z3.Select(lam.get(u.get_id(), u), q)) for u in (x, y))
                for pat in (F(x, m), F(y, m)):
                    extra.append(z3.ForAll([m], z3.Or(F(x, m) == F(y, m), z3.And(0 <= q, q < m, ax != ay)), patterns=[pat]))
    return extra


def _sum_arrays(fs, name):
    """Closed arrays summed over a bound that contains a bound variable."""
    out, vis = {}, set()
    needed = False
    todo = list(fs)
    while todo:
        x = todo.pop()
        if x.get_id() in vis: continue
        vis.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().name() == name and x.num_args() == 2:
                a = x.arg(0)
                if (z3.is_quantifier(a) and _closed(a)) or (z3.is_const(a) and not z3.is_var(a)):
                    out[a.get_id()] = a
                    if _has_var(x.arg(1)): needed = True
            todo.extend(x.children())
    return list(out.values()) if needed else []


def _has_var(t):
    if z3.is_var(t): return True
    if z3.is_quantifier(t): return False
    return any(_has_var(c) for c in t.children())


def _abstract_lambdas(fs):
    lam = {}
    todo = list(fs)
    vis = set()
    while todo:
        x = todo.pop()
        if x.get_id() in vis: continue
        vis.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body()); continue
        if z3.is_app(x) and x.decl().name() in ('SUMR', 'SUMI') and z3.is_quantifier(x.arg(0)) and _closed(x.arg(0)):
            l = x.arg(0)
            if l.get_id() not in lam:
                lam[l.get_id()] = (l, z3.Const('lam!%d' % l.get_id(), l.sort()))
        todo.extend(x.children())
    subs = list(lam.values())
    if subs: fs = [z3.substitute(f, *subs) for f in fs]
    return fs + _congruence(fs, {c.get_id(): l for l, c in subs})


def solve(fs, t1=4000, t2=15000, use_cvc5=True):
    """(verdict, backend, seconds, model-or-reason)"""
    t0 = time.time()
    if any(z3.is_false(f) for f in fs):
        return 'unsat', 'z3-simplify', 0.0, None
    s = z3.Solver()
    s.set('timeout', t1)
    s.set('auto_config', False)
    s.set('smt.mbqi', False)
    s.add(*fs)
    r = s.check()
    if r == z3.unsat: return 'unsat', 'z3 (E-matching)', time.time() - t0, None
    first = 'timeout' if 'timeout' in s.reason_unknown() or 'cancel' in s.reason_unknown() else 'saturated'
    quant = any(V._has_quant(f) for f in fs)
    if r == z3.sat:
        return 'sat', 'z3', time.time() - t0, s.model()
    s2 = z3.Solver()
    s2.add(*fs)
    txt = s2.sexpr()
    v = cvc5(txt, 12) if use_cvc5 else None
    if v == 'unsat': return 'unsat', 'cvc5', time.time() - t0, None
    if v == 'sat': return 'sat', 'cvc5', time.time() - t0, None
    s2.set('timeout', t2)
    r2 = s2.check()
    if r2 == z3.unsat: return 'unsat', 'z3 (MBQI)', time.time() - t0, None
    if r2 == z3.sat: return 'sat', 'z3 (MBQI)', time.time() - t0, s2.model()
    return (first if first == 'saturated' else 'timeout'), 'z3+cvc5', time.time() - t0, s2.reason_unknown()


def cvc5(txt, secs):
    txt = '(set-logic ALL)\n' + txt + '\n(check-sat)\n'
    if 'lambda' in txt and '(lambda' in txt:
        return None
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        p = f.name
    try:
        o = subprocess.run(['cvc5', '--tlimit=%d' % (secs * 1000), '--full-saturate-quant', p], capture_output=True, text=True, timeout=secs + 5,
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30)))
        return o.stdout.strip().split('\n')[0]
    except Exception:
        return None
    finally:
        os.unlink(p)


_sk = [0]


def _skolem(g):
    """The goal with its outer universal quantifiers replaced by fresh constants."""
    if z3.is_quantifier(g) and g.is_forall():
        cs = []
        for i in range(g.num_vars()):
            _sk[0] += 1
            cs.append(z3.Const('sk!%d' % _sk[0], g.var_sort(i)))
        return _skolem(z3.substitute_vars(g.body(), *reversed(cs)))
    if z3.is_and(g): return z3.And(*[_skolem(c) for c in g.children()])
    if z3.is_or(g): return z3.Or(*[_skolem(c) for c in g.children()])
    if z3.is_implies(g): return z3.Implies(g.arg(0), _skolem(g.arg(1)))
    return g


@vcm
def discharge(self, o, t1=4000, t2=15000):
    goal = _skolem(o.goal) if self.world.recfns else o.goal
    fs = list(self.world.axioms) + list(o.assumptions) + [z3.Not(goal)]
    if z3.is_true(z3.simplify(o.goal)):
        return 'unsat', 'z3-simplify', 0.0, None
    fs = fs + self.expand(fs)
    fs = _abstract_lambdas(fs)
    return solve(fs, t1, t2)


@vcm
def vacuity(self):
    """Entry assumptions and at least one exit are satisfiable (not refutable)."""
    out = []
    for nm, fs in (('requires', self.entry_pc),):
        s = z3.Solver(); s.set('timeout', 3000)
        s.add(*(list(self.world.axioms) + fs))
        out.append((nm, str(s.check())))
    live = 0
    for e in self.exit_conds[:40]:
        s = z3.Solver(); s.set('timeout', 1500)
        s.add(*(list(self.world.axioms) + e))
        if s.check() != z3.unsat:
            live += 1
            break
    out.append(('some exit reachable', 'yes' if live else ('no' if self.exit_conds else 'no exits')))
    return out


def verify_contract(repo, world, c, budget=300, t1=4000, t2=15000, stop_on_fail=False):
    res = FnResult(c.spec)
    t0 = time.time()
    vc = V.VC(repo, world)
    vc.deadline = t0 + budget * 0.5
    try:
        vc.gen_function(c)
    except Unsupported as e:
        res.status, res.detail = 'unsupported', str(e)
        return res
    except RecursionError:
        res.status, res.detail = 'unsupported', 'recursion'
        return res
    except Exception as e:
        res.status, res.detail = 'unsupported', 'internal: ' + ''.join(traceback.format_exception_only(type(e), e)).strip() + ' @ ' + \
            ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-4:]))
        res.trace = traceback.format_exc()
        return res
    res.paths = vc.paths
    res.inlined = sorted(vc.inlined)
    res.contracts = sorted(vc.used_contracts)
    res.externals = sorted(vc.used_externals)
    res.skipped = sorted(vc.skipped_calls)
    res.gen_s = time.time() - t0
    bad = unk = 0
    for o in vc.obligations:
        if time.time() - t0 > budget:
            res.obls.append(dict(name=o.name, verdict='timeout', backend='budget', s=0))
            unk += 1
            continue
        try:
            v, b, s, m = vc.discharge(o, t1, t2)
        except z3.Z3Exception as e:
            v, b, s, m = 'timeout', 'z3 error', 0, str(e)
        res.solver_s += s
        d = dict(name=o.name, verdict=v, backend=b, s=round(s, 3))
        if v != 'unsat':
            d['model'] = str(m)[:3000] if m is not None else None
        res.obls.append(d)
        if v in ('sat', 'saturated'): bad += 1
        elif v != 'unsat': unk += 1
    res.vacuity = vc.vacuity()
    vac = any(v == 'unsat' for n, v in res.vacuity if n == 'requires') or any(v in ('no', 'no exits') for n, v in res.vacuity if n != 'requires')
    if not vc.obligations:
        res.status, res.detail = 'unsupported', 'no obligations generated'
    elif bad: res.status = 'failed'
    elif unk: res.status = 'unknown'
    elif vac and not c.opts.get('never_returns'):
        res.status, res.detail = 'unsupported', 'vacuous contract: %s' % res.vacuity
    else: res.status = 'ok'
    return res


def verify_lemma(repo, world, lem, t1=4000, t2=15000):
    """A lemma over the contracts, independent of any function body."""
    name, hyps, goal = lem
    res = FnResult('lemma ' + name)
    vc = V.VC(repo, world)
    v, b, s, m = vc.discharge(V.Obligation(name, name, list(hyps), goal), t1, t2)
    res.solver_s = s
    res.obls.append(dict(name=name, verdict=v, backend=b, s=round(s, 3)))
    res.status = 'ok' if v == 'unsat' else 'unknown'
    return res
