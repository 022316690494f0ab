"""Expression, statement, loop and call evaluation."""
import ast
from fractions import Fraction

import z3

from .types import *
from . import vc as V


def vcm(f):
    f._vc = True
    return f


# ------------------------------------------------------------------ names
@vcm
def lookup(self, name):
    f = self.frame
    while f is not None:
        if name in f.vars:
            v = f.vars[name]
            if isinstance(v, V.UndefV):
                raise Unsupported('value of %s unknown here' % name)
            return v
        f = f.parent
    if self.spec_mode:
        if name == 'yields' and self.in_yield():
            return self.frame_yield()
        if name in self.world.specfns:
            return V.BuiltinV(name, self.world.specfns[name])
        if name in self.SPEC_BUILTINS:
            return V.BuiltinV(name, self.SPEC_BUILTINS[name])
    return self.resolve_global(self.frame.mod, name)


@vcm
def resolve_global(self, mod, name, depth=0):
    d = mod.defs.get(name) if mod is not None else None
    if d is not None:
        if isinstance(d, ast.FunctionDef):
            return self.mkfunc(d, mod, None, None, '%s::%s' % (mod.path, name))
        if isinstance(d, ast.ClassDef):
            return self.mkclass(d, mod, '%s::%s' % (mod.path, name))
        if d[0] == 'module':
            return V.ModuleV(d[1])
        if d[0] == 'from':
            p = self.repo.modpath(d[1])
            if p is not None:
                m2 = self.repo.mod(p)
                if d[2] in m2.defs:
                    return self.resolve_global(m2, d[2], depth + 1)
                p2 = self.repo.modpath(d[1] + '.' + d[2])
                if p2:
                    return V.ModuleV(d[1] + '.' + d[2])
            return self.external(d[1] + '.' + d[2])
        if d[0] == 'expr':
            if name == 'logprob_type':
                return self.external('logprob_type')
            saved = self.frame
            self.frame = V.Frame({}, mod)
            try:
                return self.eval(d[1])
            finally:
                self.frame = saved
    if name in self.PYBUILTINS:
        return V.BuiltinV(name, self.PYBUILTINS[name])
    if name in V.EXC_PARENT or name in ('Exception', 'BaseException'):
        return V.ExcClassV(name)
    if name in ('int', 'float', 'str', 'list', 'tuple', 'dict', 'set', 'bool', 'bytes', 'object', 'slice'):
        return V.TypeV(name)
    if name in ('True', 'False', 'None'):
        return {'True': True, 'False': False, 'None': None}[name]
    raise Unsupported('unknown name ' + name)


@vcm
def mkfunc(self, node, mod, cls, frame, qual):
    return V.FuncV(node, mod, cls, frame, qual)


@vcm
def mkclass(self, node, mod, qual):
    c = V.ClassV(node, mod, qual)
    for b in node.bases:
        bn = b.id if isinstance(b, ast.Name) else None
        if bn in V.EXC_PARENT or bn == 'Exception' or bn in self.world_exc:
            self.world_exc[node.name] = bn
            return V.ExcClassV(node.name)
    return c


@vcm
def external(self, path):
    if path in self.world.externals:
        self.used_externals.add(path)
        x = self.world.externals[path]
        return V.BuiltinV(path, x) if callable(x) else x
    if path in self.EXTERNALS:
        self.used_externals.add(path)
        x = self.EXTERNALS[path]
        return V.BuiltinV(path, x) if callable(x) else x
    if path in ('numpy', 'theano', 'math', 'theano.tensor', 'numpy.random', 'h5py', 'logging', 'sys', 'time',
                'theano.config', 'theano.tensor.nnet', 'mmap', 'random', 'scipy.sparse', 'collections',
                'numpy.newaxis', 'os'):
        if path == 'numpy.newaxis':
            return None
        return V.ModuleV(path)
    if path == 'theano.config.floatX':
        return 'floatX'
    for p in ('numpy.int', 'numpy.float', 'numpy.uint', 'numpy.bool'):
        if path.startswith(p):
            return V.TypeV(path)
    if any(q.startswith(path + '.') for q in self.world.externals):
        return V.ModuleV(path)
    raise Unsupported('external ' + path)


@vcm
def class_of(self, qual):
    """ClassV for 'path::Qual' or None."""
    f = self.repo.find(qual)
    if f is None:
        return None
    return V.ClassV(f[2], f[0], qual)


@vcm
def bases(self, cls):
    out = []
    for b in cls.node.bases:
        saved = self.frame
        self.frame = V.Frame({}, cls.mod)
        try:
            v = self.eval(b)
        except Unsupported:
            v = None
        finally:
            self.frame = saved
        if isinstance(v, V.ClassV):
            out.append(v)
    return out


@vcm
def class_member(self, cls, name):
    """Finds a method/nested class/constant in a class or its bases."""
    for n in cls.node.body:
        if isinstance(n, ast.FunctionDef) and n.name == name:
            return self.mkfunc(n, cls.mod, cls, None, cls.qual + '.' + name)
        if isinstance(n, ast.ClassDef) and n.name == name:
            return self.mkclass(n, cls.mod, cls.qual + '.' + name)
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            saved = self.frame
            self.frame = V.Frame({}, cls.mod)
            try:
                return self.eval(n.value)
            finally:
                self.frame = saved
    for b in self.bases(cls):
        r = self.class_member(b, name)
        if r is not None:
            return r
    return None


def decorators(fn):
    return [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '') for d in fn.node.decorator_list]


@vcm
def bind_member(self, m, self_, cls):
    if isinstance(m, V.FuncV):
        ds = decorators(m)
        if 'staticmethod' in ds:
            return m
        if 'classmethod' in ds:
            return V.BoundV(m, cls)
        if 'property' in ds:
            return self.call_function(m, [self_], {})
        return V.BoundV(m, self_)
    return m


@vcm
def getattr_(self, o, name):
    if name == 'tag' and isinstance(o, T) and o.ty in (INT, REAL): return self.new_record(RecT('Tag', {}), 'tag')
    o2 = o
    if isinstance(o, T) and isinstance(o.ty, UnionT):
        o2 = self.split(o)
        if o2 is None:
            self.require(False, 'AttributeError', 'None.%s' % name)
            raise V.PathDead()
    o = o2
    if o is None:
        self.require(False, 'AttributeError', 'None.' + name)
        raise V.PathDead()
    if isinstance(o, V.ModuleV):
        p = o.path + '.' + name
        mp = self.repo.modpath(o.path)
        if mp is not None:
            return self.resolve_global(self.repo.mod(mp), name)
        return self.external(p)
    if isinstance(o, Rec):
        attrs = self.st.objs[o.oid]
        if name in attrs:
            v = attrs[name]
            if isinstance(v, V.UndefV):
                raise Unsupported('attribute %s unknown here' % name)
            return v
        src = self.world.rec_src.get(o.cls) or self.dyn_src.get(o.cls)
        if src:
            cls = self.class_of(src)
            if cls is not None:
                m = self.class_member(cls, name)
                if m is not None:
                    return self.bind_member(m, o, cls)
        raise Unsupported('attribute %s of %s is not declared' % (name, o.cls))
    if isinstance(o, T) and isinstance(o.ty, RefT):
        if name in self.world.heap[o.ty.cls]:
            return self.get_field(o.t, o.ty.cls, name)
        rm = self.world.ref_methods.get((o.ty.cls, name))
        if rm is not None:
            return V.BuiltinV(name, lambda vc, a, k, o=o: rm(vc, o, a, k))
        for q, h in self.world.heap_map.items():
            if h == o.ty.cls:
                cls = self.class_of(q)
                m = self.class_member(cls, name) if cls else None
                if m is not None:
                    return self.bind_member(m, o, cls)
        raise Unsupported('field %s.%s' % (o.ty.cls, name))
    if isinstance(o, V.ClassV):
        m = self.class_member(o, name)
        if m is None:
            raise Unsupported('class attribute %s.%s' % (o.qual, name))
        if isinstance(m, V.FuncV) and 'classmethod' in decorators(m):
            return V.BoundV(m, o)
        return m
    if isinstance(o, V.SuperV):
        for b in self.bases(o.cls):
            m = self.class_member(b, name)
            if m is not None:
                return self.bind_member(m, o.self_, b)
        if name == '__init__':
            return V.BuiltinV('object.__init__', lambda vc, a, k: None)
        raise Unsupported('super().' + name)
    if isinstance(o, V.RangeV) and name in ('start', 'stop'):
        return o.lo if name == 'start' else o.hi
    return self.container_attr(o, name)


# ------------------------------------------------------------------ expressions
@vcm
def eval(self, n):
    m = getattr(self, 'ev_' + type(n).__name__, None)
    if m is None:
        raise Unsupported('expression %s at line %s' % (type(n).__name__, getattr(n, 'lineno', '?')))
    return m(n)


@vcm
def ev_Constant(self, n):
    if n.value is Ellipsis:
        return V.ELLIPSIS
    if isinstance(n.value, bytes):
        return ('bytes:' + n.value.decode('latin1'))
    return n.value


@vcm
def ev_Name(self, n):
    return self.lookup(n.id)


@vcm
def ev_Attribute(self, n):
    return self.getattr_(self.eval(n.value), n.attr)


@vcm
def ev_Tuple(self, n):
    out = []
    for x in n.elts:
        if isinstance(x, ast.Starred):
            v = self.eval(x.value)
            if isinstance(v, tuple):
                out.extend(v)
                continue
            raise Unsupported('starred')
        out.append(self.eval(x))
    return tuple(out)


@vcm
def ev_List(self, n):
    vals = [self.eval(x) for x in n.elts]
    try:
        return self.new_cell(self.seq_of_values(vals))
    except Unsupported:
        # heterogeneous list of interpreter-level values: a Python-level list
        return self.new_cell(PyList(vals))


class PyList:
    """List whose elements are interpreter-level values (known length)."""
    def __init__(self, vals): self.vals = list(vals)


@vcm
def ev_Set(self, n):
    vals = [self.eval(x) for x in n.elts]
    e = None
    for v in vals:
        e = self.join(e, self.type_of(v))
    ts = [self.pack(v, e) for v in vals]
    c = SetC(e, lambda x: z3.Or(*[x == t for t in ts]) if ts else z3.BoolVal(False))
    c.elems = ts
    return self.new_cell(c)


@vcm
def ev_Dict(self, n):
    c = DictC(None, None, 0, None, None, None, None)
    h = self.new_cell(c)
    if all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in n.keys) and n.keys:
        return self.new_cell(PyDict({k.value: self.eval(v) for k, v in zip(n.keys, n.values)}))
    for k, v in zip(n.keys, n.values):
        self.dict_set(h, self.eval(k), self.eval(v))
    return h


class PyDict:
    """Dictionary with constant string keys and interpreter-level values."""
    def __init__(self, d): self.d = dict(d)


@vcm
def ev_JoinedStr(self, n):
    args = [self.eval(x.value) for x in n.values if isinstance(x, ast.FormattedValue)]
    tmpl = ''.join(x.value if isinstance(x, ast.Constant) else '{}' for x in n.values)
    return self.fmt(tmpl, args)


@vcm
def ev_Lambda(self, n):
    return V.LambdaV(n, self.frame.mod, self.frame.cls, self.frame, '<lambda>')


@vcm
def ev_UnaryOp(self, n):
    v = self.eval(n.operand)
    if isinstance(n.op, ast.Not):
        return self.mkbool(self.neg(self.truth(v)))
    if isinstance(n.op, ast.USub):
        return self.neg_num(v)
    if isinstance(n.op, ast.UAdd):
        return v
    raise Unsupported('unary operator')


@vcm
def neg_num(self, v):
    if isinstance(v, (int, float)): return -v
    v = self.split(v)
    if v is None:
        self.require(False, 'TypeError', 'negation of None')
        raise V.PathDead()
    c = self.content(v)
    if isinstance(c, NDArr):
        return self.elementwise([c], lambda x: self.neg_num(x))
    if isinstance(v, T) and v.ty in (INT, REAL): return T(v.ty, -v.t)
    raise Unsupported('negation of %r' % (v,))


@vcm
def ev_BoolOp(self, n):
    is_and = isinstance(n.op, ast.And)
    if self.spec_mode:
        acc = []
        out = []
        for x in n.values:
            saved = len(self.pc)
            def f(x=x):
                for a in acc:
                    self.assume(a)
                return self.mkbool(self.truth(self.eval(x)))
            # evaluate x under the assumption of the previous operands
            v = self.merged_under(acc, x)
            t = self.truth(v)
            if is_and and t is False: return False
            if (not is_and) and t is True: return True
            if isinstance(t, bool): continue
            out.append(t)
            acc.append(t if is_and else z3.Not(t))
        return self.mkbool((self.conj if is_and else self.disj)(out))
    for i, x in enumerate(n.values):
        v = self.eval(x)
        if i == len(n.values) - 1:
            return v
        if is_and:
            if not self.branch(self.truth(v)): return v if not isinstance(v, T) or v.ty != BOOL else False
        else:
            if self.branch(self.truth(v)): return v if not isinstance(v, T) or v.ty != BOOL else True
    return v


@vcm
def merged_under(self, acc, node):
    n0 = len(self.pc)
    for a in acc:
        self.pc.append(a)
    try:
        v = self.merged(node)
    finally:
        new = self.pc[n0 + len(acc):]
        del self.pc[n0:]
        for f in new:
            self.pc.append(z3.Implies(z3.And(*acc), f) if acc else f)
    return v


@vcm
def ev_IfExp(self, n):
    c = self.truth(self.eval(n.test))
    if isinstance(c, bool):
        return self.eval(n.body if c else n.orelse)
    if self.spec_mode:
        a = self.merged_under([c], n.body)
        b = self.merged_under([z3.Not(c)], n.orelse)
        return self.ite(c, a, b)
    return self.eval(n.body) if self.branch(c) else self.eval(n.orelse)


@vcm
def ite(self, c, a, b):
    if isinstance(c, bool): return a if c else b
    if a is b: return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(self.ite(c, x, y) for x, y in zip(a, b))
    e = self.join(self.type_of(a), self.type_of(b))
    return self.unpack(e, z3.If(c, self.pack(a, e), self.pack(b, e)))


@vcm
def ev_Compare(self, n):
    l = self.eval(n.left)
    res = []
    for op, rn in zip(n.ops, n.comparators):
        r = self.eval(rn)
        v = self.compare(op, l, r)
        if isinstance(v, (Handle, NDArr)):
            if len(n.ops) == 1: return v
            raise Unsupported('chained array comparison')
        res.append(v)
        l = r
    return self.mkbool(self.conj(res))


@vcm
def compare(self, op, l, r):
    if isinstance(op, (ast.Is, ast.IsNot)):
        x = self.is_(l, r)
        return self.neg(x) if isinstance(op, ast.IsNot) else x
    if isinstance(op, (ast.In, ast.NotIn)):
        x = self.contains(r, l)
        return self.neg(x) if isinstance(op, ast.NotIn) else x
    cl, cr = self.content(l), self.content(r)
    if isinstance(cl, NDArr) or isinstance(cr, NDArr):
        if not (isinstance(cl, NDArr) and len(cl.shape) == 0) and not self.spec_eq_arrays(op, cl, cr):
            def f(x, y):
                return self.mkbool(self.compare(op, x, y))
            return self.elementwise([cl if isinstance(cl, NDArr) else l, cr if isinstance(cr, NDArr) else r], f)
    if isinstance(op, ast.Eq): return self.eq(l, r)
    if isinstance(op, ast.NotEq): return self.neg(self.eq(l, r))
    if isinstance(l, tuple) and isinstance(r, tuple):
        return self.tuple_less(op, l, r)
    l, r = self.split(l), self.split(r)
    if isinstance(cl, SetC) and isinstance(cr, SetC) and isinstance(op, (ast.LtE, ast.GtE)):
        small, big = (cl, cr) if isinstance(op, ast.LtE) else (cr, cl)
        if getattr(small, 'elems', None):
            return z3.And(*[big.has(t) for t in small.elems])
        x = z3.Const('x!sub', cl.e.sort)
        a, b = (cl, cr) if isinstance(op, ast.LtE) else (cr, cl)
        return z3.ForAll([x], z3.Implies(a.has(x), b.has(x)))
    if isinstance(l, (int, float, Fraction)) and isinstance(r, (int, float, Fraction)):
        return {ast.Lt: l < r, ast.LtE: l <= r, ast.Gt: l > r, ast.GtE: l >= r}[type(op)]
    if l is None or r is None:
        self.require(False, 'TypeError', 'ordering comparison with None')
        raise V.PathDead()
    tl, tr = self.type_of(l), self.type_of(r)
    if REAL in (tl, tr):
        a, b = self.real(l), self.real(r)
    else:
        a, b = self.intt(l), self.intt(r)
    return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]


@vcm
def spec_eq_arrays(self, op, cl, cr):
    return self.spec_mode and isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(cl, NDArr) and isinstance(cr, NDArr)


@vcm
def tuple_less(self, op, l, r):
    lt = isinstance(op, (ast.Lt, ast.LtE))
    strict = isinstance(op, (ast.Lt, ast.Gt))
    out = False
    eqs = []
    for x, y in zip(l, r):
        o = ast.Lt() if lt else ast.Gt()
        try:
            c = self.compare(o, x, y)
        except Unsupported:
            raise
        out = self.disj([out, self.conj(eqs + [c])])
        eqs.append(self.eq(x, y))
    if not strict:
        out = self.disj([out, self.conj(eqs)])
    return out


@vcm
def is_(self, l, r):
    if r is None or l is None:
        v = l if r is None else r
        if v is None: return True
        if isinstance(v, T) and isinstance(v.ty, UnionT):
            if NONE in v.ty.alts:
                return v.ty.is_alt(v.t, v.ty.alts.index(NONE))
            return False
        return False
    if isinstance(l, Rec) and isinstance(r, Rec):
        return l.oid == r.oid
    if isinstance(l, bool) or isinstance(r, bool):
        return self.eq(l, r)
    if isinstance(l, T) and isinstance(r, T):
        return self.eq(l, r)
    if isinstance(l, Handle) and isinstance(r, Handle):
        if l.loc == r.loc: return True
        if l.loc[0] == 'cell' and r.loc[0] == 'cell': return False
    raise Unsupported('identity comparison')


@vcm
def contains(self, c, x):
    if isinstance(c, T) and isinstance(c.ty, UnionT):
        c = self.split(c)
    d = self.content(c)
    if isinstance(d, PyDict):
        if isinstance(x, str): return x in d.d
        raise Unsupported('symbolic key in option dictionary')
    if isinstance(d, DictC):
        if d.kt is None: return False
        return d.has(self.pack_key(x, d.kt))
    if isinstance(d, SetC):
        if d.e is None: return False
        return d.has(self.pack_key(x, d.e))
    if isinstance(d, tuple):
        return self.disj([self.eq(x, y) for y in d])
    if isinstance(d, PyList):
        return self.disj([self.eq(x, y) for y in d.vals])
    if isinstance(d, SeqC):
        if d.e is None: return False
        if hasattr(d, 'vals'):
            return self.disj([self.eq(x, y) for y in d.vals])
        # an element appended last is tested separately
        arr, n, head = d.arr, zint_(d.n), []
        while arr is not None and z3.is_app_of(arr, z3.Z3_OP_STORE) and z3.is_true(z3.simplify(n - arr.arg(1) == 1)):
            head.append(self.eq(x, self.unpack(d.e, arr.arg(2))))
            n, arr = z3.simplify(n - 1), arr.arg(0)
        i = z3.Int('i!c%d' % next(self.counter))
        b = self.eq(x, self.unpack(d.e, d.at(i) if not head else z3.Select(arr, i)))
        if b is False and not head: return False
        rest = False if b is False else z3.Exists([i], z3.And(0 <= i, i < n, b))
        return self.disj(head + [rest]) if head else rest
    if isinstance(c, Rec):
        src = self.world.rec_src.get(c.cls)
        cls = self.class_of(src) if src else None
        m = self.class_member(cls, '__contains__') if cls else None
        if m is not None:
            return self.truth(self.call_function(m, [c, x], {}))
        if '__contains__' in self.st.objs[c.oid]:
            return self.truth(self.call(self.st.objs[c.oid]['__contains__'], [x], {}))
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    raise Unsupported('membership test in %r' % (c,))


zint_ = V.zint


@vcm
def pack_key(self, x, kt):
    """Packs a key; a value that cannot be of the key type gives a foreign term."""
    return self.pack(x, kt)


@vcm
def ev_BinOp(self, n):
    return self.binop(n.op, self.eval(n.left), self.eval(n.right))


@vcm
def binop(self, op, a, b):
    if isinstance(op, ast.Add):
        r = self.try_concat(a, b)
        if r is not None:
            return r
    ca, cb = self.content(a), self.content(b)
    if isinstance(ca, SeqC) and not isinstance(ca, NDArr) and isinstance(op, ast.Mult):
        return self.repeat(ca, b)
    if isinstance(ca, PyList) and isinstance(op, ast.Mult):
        return self.repeat(self.seq_of_values(ca.vals), b)
    if isinstance(ca, NDArr) or isinstance(cb, NDArr):
        return self.elementwise([ca if isinstance(ca, NDArr) else a, cb if isinstance(cb, NDArr) else b],
                                lambda x, y: self.binop_s(op, x, y))
    if isinstance(op, ast.Mod) and (isinstance(a, str) or (isinstance(a, T) and a.ty == STR)):
        return self.fmt(a, list(b) if isinstance(b, tuple) else [b])
    if isinstance(op, ast.BitOr) and isinstance(ca, SetC) and isinstance(cb, SetC):
        e = self.join(ca.e, cb.e)
        return self.new_cell(SetC(e, lambda x: z3.Or(ca.has(x), cb.has(x))))
    return self.binop_s(op, a, b)


@vcm
def binop_s(self, op, a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(op, ast.Div):
        try:
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b,
                    ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b}[type(op)]()
        except KeyError:
            raise Unsupported('operator')
        except ZeroDivisionError:
            self.require(False, 'ZeroDivisionError', 'division')
            raise V.PathDead()
    a, b = self.split(a), self.split(b)
    if not (V.is_num(a) and V.is_num(b)):
        if a is None or b is None:
            self.require(False, 'TypeError', 'arithmetic on None')
            raise V.PathDead()
        if isinstance(op, ast.Add) and self.type_of(a) == STR and self.type_of(b) == STR:
            return self.str_concat(a, b)
        raise Unsupported('arithmetic on %r and %r' % (a, b))
    ta, tb = self.type_of(a), self.type_of(b)
    if isinstance(op, ast.Div):
        x, y = self.real(a), self.real(b)
        if not isinstance(b, (int, float)) or b == 0:
            self.require(y != 0, 'ZeroDivisionError', 'division')
        return T(REAL, x / y)
    if REAL in (ta, tb):
        x, y = self.real(a), self.real(b)
        if isinstance(op, ast.Add): return T(REAL, x + y)
        if isinstance(op, ast.Sub): return T(REAL, x - y)
        if isinstance(op, ast.Mult): return T(REAL, x * y)
        if isinstance(op, ast.FloorDiv):
            self.require(y != 0, 'ZeroDivisionError', 'division')
            return T(REAL, z3.ToReal(z3.ToInt(x / y)))
        if isinstance(op, ast.Pow) and isinstance(b, (int, float)) and b == 2: return T(REAL, x * x)
        raise Unsupported('real operator')
    x, y = self.intt(a), self.intt(b)
    if isinstance(op, ast.Add): return self.mkint(x + y)
    if isinstance(op, ast.Sub): return self.mkint(x - y)
    if isinstance(op, ast.Mult): return self.mkint(x * y)
    if isinstance(op, (ast.FloorDiv, ast.Mod)):
        self.require(y != 0, 'ZeroDivisionError', 'division')
        if isinstance(b, int) and b > 0 or not self.feasible(y <= 0):
            q = x / y
            m = x % y
        else:
            q = z3.If(y > 0, x / y, (-x) / (-y))
            m = x - y * q
        return self.mkint(q if isinstance(op, ast.FloorDiv) else m)
    raise Unsupported('int operator')


# ------------------------------------------------------------------ subscripts
@vcm
def ev_Subscript(self, n):
    o = self.eval(n.value)
    return self.getitem(o, self.eval_index(n.slice))


@vcm
def eval_index(self, s):
    if isinstance(s, ast.Slice):
        return V.SliceV(*[None if x is None else self.eval(x) for x in (s.lower, s.upper, s.step)])
    if isinstance(s, ast.Tuple):
        return tuple(self.eval_index(x) for x in s.elts)
    return self.eval(s)


@vcm
def norm_index(self, i, n, label='index'):
    """Normalises a Python index against length n, with bounds check."""
    i = self.split(i)
    if isinstance(i, T) and i.ty == REAL:
        raise Unsupported('float index')
    if isinstance(i, int):
        if i < 0:
            self.require(zint_(n) >= -i if not isinstance(n, int) else n >= -i, 'IndexError', label)
            return zint_(n) + i if not isinstance(n, int) else z3.IntVal(n + i)
        self.require(zint_(n) > i if not isinstance(n, int) else n > i, 'IndexError', label)
        return z3.IntVal(i)
    t = self.intt(i)
    if self.spec_mode:
        return t
    self.require(z3.And(t < zint_(n), t >= -zint_(n)), 'IndexError', label)
    if not self.feasible(t < 0):
        return t
    return z3.If(t < 0, t + zint_(n), t)


@vcm
def getitem(self, o, i):
    if isinstance(o, T) and isinstance(o.ty, UnionT):
        o = self.split(o)
    if isinstance(o, tuple):
        if isinstance(i, V.SliceV):
            lo, hi, st = i.lo, i.hi, i.step
            if all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                return o[lo:hi:st]
        if isinstance(i, int):
            if not -len(o) <= i < len(o):
                self.require(False, 'IndexError', 'tuple index')
                raise V.PathDead()
            return o[i]
        o = self.seq_of_values(o, htup=True)
    if isinstance(o, Rec):
        src = self.world.rec_src.get(o.cls)
        cls = self.class_of(src) if src else None
        m = self.class_member(cls, '__getitem__') if cls else None
        if m is not None:
            return self.call_function(m, [o, i], {})
        if '__getitem__' in self.st.objs[o.oid]:
            return self.call(self.st.objs[o.oid]['__getitem__'], [i], {})
    c = self.content(o)
    if isinstance(c, PyDict):
        if isinstance(i, str):
            if i not in c.d:
                self.require(False, 'KeyError', i)
                raise V.PathDead()
            return c.d[i]
        raise Unsupported('symbolic key')
    if isinstance(c, PyList):
        if isinstance(i, int): return c.vals[i]
        if isinstance(i, V.SliceV):
            return self.new_cell(PyList(c.vals[slice(i.lo, i.hi, i.step)]))
        raise Unsupported('symbolic index into heterogeneous list')
    if isinstance(c, SeqC):
        if isinstance(i, V.SliceV):
            r = self.slice_seq(c, i)
            return r if c.htup else self.new_cell(r)
        t = self.norm_index(i, c.n, 'list index')
        if hasattr(c, 'vals'):
            s = z3.simplify(t)
            if z3.is_int_value(s) and 0 <= s.as_long() < len(c.vals):
                return c.vals[s.as_long()]
        if c.e is None:
            self.require(False, 'IndexError', 'empty list')
            raise V.PathDead()
        return self.elem_value(o, c, t)
    if isinstance(c, DictC):
        if c.kt is None:
            self.require(False, 'KeyError', 'empty dict')
            raise V.PathDead()
        k = self.pack_key(i, c.kt)
        self.require(c.has(k), 'KeyError', 'dictionary key')
        if isinstance(c.vt, (ListT, NDT, DictT, SetT)) and not isinstance(c.vt, HTupT) and isinstance(o, Handle):
            return Handle(('dval', o.loc, k), c.vt)
        return self.unpack(c.vt, c.val(k))
    if isinstance(c, NDArr):
        return self.nd_getitem(c, i)
    if isinstance(o, V.RangeV):
        return self.binop_s(ast.Add(), o.lo, i)
    if isinstance(o, (str,)) or (isinstance(o, T) and o.ty == STR):
        return self.str_index(o, i)
    raise Unsupported('subscript of %r' % (o,))


@vcm
def elem_value(self, o, c, t):
    if isinstance(c.e, (ListT, NDT, DictT, SetT)) and not isinstance(c.e, HTupT) and isinstance(o, Handle):
        return Handle(('elem', o.loc, t), c.e)
    return self.unpack(c.e, c.at(t))


@vcm
def slice_bounds(self, s, n):
    n_ = zint_(n)
    def norm(x, default):
        if x is None: return default
        x = self.split(x)
        if x is None: return default
        if isinstance(x, int):
            if x < 0: return z3.If(n_ + x > 0, n_ + x, z3.IntVal(0))
            if isinstance(n, int): return z3.IntVal(min(x, n))
            return z3.IntVal(0) if x == 0 else z3.If(n_ < x, n_, z3.IntVal(x))
        t = self.intt(x)
        if self.feasible(t < 0):
            t = z3.If(t < 0, z3.If(n_ + t > 0, n_ + t, z3.IntVal(0)), t)
        return z3.If(t > n_, n_, t)
    lo, hi = norm(s.lo, z3.IntVal(0)), norm(s.hi, n_)
    ln = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
    return lo, hi, (ln.as_long() if z3.is_int_value(ln) else ln)


@vcm
def slice_seq(self, c, s):
    if s.step is not None and not (isinstance(s.step, int) and s.step == 1):
        st = self.split(s.step)
        if isinstance(st, int) and st == -1 and s.lo is None and s.hi is None:
            n = zint_(c.n)
            return SeqC(c.n, c.e, lambda i: c.at(n - 1 - zint_(i)), None, c.htup)
        t = self.intt(st)
        self.require(t != 0, 'ValueError', 'slice step')
        if self.feasible(t < 0):
            raise Unsupported('negative slice step')
        lo, hi, _ = self.slice_bounds(V.SliceV(s.lo, s.hi, None), c.n)
        ln = z3.If(hi > lo, (hi - lo + t - 1) / t, z3.IntVal(0))
        if c.e is None: return SeqC(0, None, None)
        return SeqC(ln, c.e, lambda i: c.at(lo + zint_(i) * t), None, c.htup)
    lo, hi, ln = self.slice_bounds(s, c.n)
    if c.e is None:
        return SeqC(0, None, None, htup=c.htup)
    lo = z3.simplify(lo)
    if z3.is_int_value(lo) and lo.as_long() == 0:
        return SeqC(ln, c.e, c.at, c.arr, c.htup)
    return SeqC(ln, c.e, lambda i: c.at(lo + zint_(i)), None, c.htup)


# ------------------------------------------------------------------ assignment
@vcm
def assign(self, target, v):
    if isinstance(target, ast.Name):
        h = self.frame.vars.get('$hints', {}).get(target.id)
        if h is not None:
            v = self.coerce(v, h)
        self.frame.vars[target.id] = v
    elif isinstance(target, (ast.Tuple, ast.List)):
        if any(isinstance(x, ast.Starred) for x in target.elts):
            raise Unsupported('starred assignment')
        vals = self.unpack_iter(v, len(target.elts))
        for t, x in zip(target.elts, vals):
            self.assign(t, x)
    elif isinstance(target, ast.Attribute):
        self.setattr_(self.eval(target.value), target.attr, v)
    elif isinstance(target, ast.Subscript):
        self.setitem(self.eval(target.value), self.eval_index(target.slice), v)
    else:
        raise Unsupported('assignment target')


@vcm
def coerce(self, v, ty):
    """Gives a value the declared (wider) type."""
    if isinstance(ty, str):
        ty = self.world.ty(ty)
    c = self.content(v)
    if isinstance(v, Handle) and isinstance(ty, ListT) and isinstance(c, (SeqC,)):
        if c.e != ty.e:
            r = self.retype(c, ty.e) if not hasattr(c, 'vals') or not c.vals else self.seq_of_values(c.vals, ty.e)
            self.store(v.loc, r)
        return v
    if isinstance(v, Handle) and isinstance(ty, ListT) and isinstance(c, PyList):
        self.store(v.loc, self.seq_of_values(c.vals, ty.e))
        return v
    if isinstance(v, Handle) and isinstance(ty, DictT) and isinstance(c, DictC):
        if c.kt is None:
            self.store(v.loc, self.empty_dict(ty))
        return v
    if isinstance(v, Handle) and isinstance(ty, SetT) and isinstance(c, SetC):
        if c.e is None:
            self.store(v.loc, SetC(ty.e, lambda x: z3.BoolVal(False)))
        return v
    if isinstance(ty, (UnionT, Scalar, TupT)) and not isinstance(v, (Handle, Rec)):
        if isinstance(v, T) and isinstance(v.ty, UnionT) and not isinstance(ty, UnionT):
            return v
        return self.unpack(ty, self.pack(v, ty)) if not isinstance(ty, UnionT) else T(ty, self.pack(v, ty))
    return v


@vcm
def empty_dict(self, ty):
    k = self.fresh('ek', z3.ArraySort(z3.IntSort(), ty.k.sort))
    x = self.fresh('ex', z3.ArraySort(ty.k.sort, z3.IntSort()))
    v = self.fresh('ev', z3.ArraySort(ty.k.sort, ty.v.sort))
    return DictC(ty.k, ty.v, 0, lambda i: z3.Select(k, zint_(i)), lambda q: z3.BoolVal(False),
                 lambda q: z3.Select(v, q), lambda q: z3.Select(x, q))


@vcm
def unpack_iter(self, v, n):
    if isinstance(v, tuple):
        if len(v) != n:
            self.require(False, 'ValueError', 'unpacking')
            raise V.PathDead()
        return list(v)
    c = self.content(v)
    if isinstance(c, PyList):
        return c.vals
    if isinstance(c, SeqC):
        self.require(zint_(c.n) == n, 'ValueError', 'unpacking')
        return [self.elem_value(v, c, z3.IntVal(i)) for i in range(n)]
    if isinstance(c, NDArr) and len(c.shape) > 1 or isinstance(c, NDArr):
        return [self.nd_getitem(c, i) for i in range(n)]
    raise Unsupported('unpacking of %r' % (v,))


@vcm
def setattr_(self, o, name, v):
    if isinstance(o, T) and isinstance(o.ty, UnionT):
        o = self.split(o)
    if isinstance(o, Rec):
        rt = self.world.records.get(o.cls)
        if rt is not None and name in rt.attrs and isinstance(rt.attrs[name], Ty) and not isinstance(rt.attrs[name], (RecT, FnT)):
            v = self.coerce(v, rt.attrs[name])
        self.st.objs[o.oid][name] = v
        return
    if isinstance(o, T) and isinstance(o.ty, RefT):
        self.set_field(o.t, o.ty.cls, name, v)
        return
    raise Unsupported('attribute assignment on %r' % (o,))


@vcm
def setitem(self, o, i, v):
    if isinstance(o, T) and isinstance(o.ty, UnionT):
        o = self.split(o)
    if isinstance(o, Rec):
        if '__setitem__' in self.st.objs[o.oid]:
            return self.call(self.st.objs[o.oid]['__setitem__'], [i, v], {})
        src = self.world.rec_src.get(o.cls)
        cls = self.class_of(src) if src else None
        m = self.class_member(cls, '__setitem__') if cls else None
        if m is not None:
            return self.call_function(m, [o, i, v], {})
    c = self.content(o)
    if not isinstance(o, Handle):
        raise Unsupported('item assignment')
    if isinstance(c, PyDict):
        if isinstance(i, str):
            d = dict(c.d); d[i] = v
            self.store(o.loc, PyDict(d))
            return
        raise Unsupported('symbolic key')
    if isinstance(c, DictC):
        self.dict_set(o, i, v)
        return
    if isinstance(c, PyList) and isinstance(i, int):
        l = list(c.vals); l[i] = v
        self.store(o.loc, PyList(l))
        return
    if isinstance(c, SeqC):
        if isinstance(i, V.SliceV):
            raise Unsupported('slice assignment')
        t = self.norm_index(i, c.n, 'list index')
        vt = self.type_of(v)
        e = c.e if self._coercible(v, vt, c.e) or vt == c.e or (isinstance(c.e, UnionT)) else self.join(c.e, vt)
        c2 = self.retype(c, e)
        if c2 is not c:
            self.store(o.loc, c2)
        term = self.pack(v, e)
        self.store_term(('elem', o.loc, t), term)
        self.rehome(v, ('elem', o.loc, t))
        return
    if isinstance(c, NDArr):
        self.nd_setitem(o, c, i, v)
        return
    raise Unsupported('item assignment to %r' % (o,))


@vcm
def dict_set(self, h, k, v):
    c = self.content(h)
    if c.kt is None:
        if isinstance(k, str) and not isinstance(v, (T, int, float, str, tuple, type(None))):
            try:
                self.type_of(v)
            except Unsupported:
                self.store(h.loc, PyDict({k: v}))
                return
        if isinstance(v, (Rec,)) or (isinstance(k, str) and getattr(self.cur, 'opts', {}).get('pydicts')):
            self.store(h.loc, PyDict({k: v}))
            return
        c = self.empty_dict(DictT(self.type_of(k), self.type_of(v)))
    vt = self.type_of(v)
    if vt != c.vt and not self._coercible(v, vt, c.vt) and not isinstance(c.vt, UnionT):
        nv = self.join(c.vt, vt)
        old, ot = c.val, c.vt
        c = DictC(c.kt, nv, c.n, c.key, c.has, lambda q: self.pack(self.unpack(ot, old(q)), nv), c.idx)
    kt = self.pack_key(k, c.kt)
    vt_ = self.pack(v, c.vt)
    has, val, key, idx, n = c.has, c.val, c.key, c.idx, zint_(c.n)
    present = has(kt)
    sp = z3.simplify(present)
    newn = n if z3.is_true(sp) else (n + 1 if z3.is_false(sp) else z3.If(present, n, n + 1))
    d = DictC(c.kt, c.vt, z3.simplify(newn),
              lambda i: z3.If(z3.And(z3.Not(present), zint_(i) == n), kt, key(i)),
              lambda q: z3.Or(q == kt, has(q)),
              lambda q: z3.If(q == kt, vt_, val(q)),
              lambda q: z3.If(z3.And(q == kt, z3.Not(present)), n, idx(q)))
    d.base, d.put = c, (kt, vt_)
    self.store(h.loc, d)


# ------------------------------------------------------------------ statements
@vcm
def exec_block(self, body):
    for s in body:
        self.exec(s)


@vcm
def exec(self, s):
    m = getattr(self, 'st_' + type(s).__name__, None)
    if m is None:
        raise Unsupported('statement %s at line %s' % (type(s).__name__, s.lineno))
    m(s)


@vcm
def st_Expr(self, s):
    if isinstance(s.value, ast.Constant):
        return
    if isinstance(s.value, ast.Yield):
        y = self.frame_yield()
        self.list_append(y, self.eval(s.value.value))
        return
    if self.is_skipped_call(s.value):
        return
    self.eval(s.value)


@vcm
def in_yield(self):
    f = self.frame
    while f is not None and '$yield' not in f.vars: f = f.parent
    return f is not None


@vcm
def frame_yield(self):
    f = self.frame
    while f is not None and '$yield' not in f.vars:
        f = f.parent
    if f is None:
        raise Unsupported('yield')
    return f.vars['$yield']


@vcm
def is_skipped_call(self, n):
    if not isinstance(n, ast.Call):
        return False
    f = n.func
    if isinstance(f, ast.Name) and f.id == 'print':
        self.skipped_calls.add('print'); return True
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'logging':
        self.skipped_calls.add('logging.' + f.attr); return True
    t = ast.unparse(f)
    if t in ('sys.stdout.flush', 'sys.stderr.flush', 'self._log_update', 'self._log_validation', 'self._log_stats'):
        self.skipped_calls.add(t); return True
    return False


@vcm
def st_Pass(self, s): pass
@vcm
def st_Import(self, s): raise Unsupported('local import')
@vcm
def st_Global(self, s): raise Unsupported('global')


@vcm
def st_Nonlocal(self, s):
    self.frame.vars.setdefault('$nonlocal', set()).update(s.names)


@vcm
def st_Assign(self, s):
    v = self.eval(s.value)
    for t in s.targets:
        self.assign(t, v)


@vcm
def st_AnnAssign(self, s):
    if s.value is not None:
        self.assign(s.target, self.eval(s.value))


@vcm
def st_AugAssign(self, s):
    t = s.target
    if isinstance(t, ast.Name):
        old = self.lookup(t.id)
    elif isinstance(t, ast.Attribute):
        obj = self.eval(t.value)
        old = self.getattr_(obj, t.attr)
    else:
        obj = self.eval(t.value)
        ix = self.eval_index(t.slice)
        old = self.getitem(obj, ix)
    v = self.eval(s.value)
    c = self.content(old)
    if isinstance(old, Handle) and isinstance(c, SeqC) and isinstance(s.op, ast.Add):
        self.list_extend(old, v)
        return
    if isinstance(old, Handle) and isinstance(c, SetC) and isinstance(s.op, ast.BitOr):
        r = self.binop(s.op, old, v)
        self.store(old.loc, self.content(r))
        return
    r = self.binop(s.op, old, v)
    if isinstance(old, Handle) and isinstance(c, NDArr) and not isinstance(t, ast.Subscript) and not self.tensor_mode:
        rc = self.content(r)
        self.store(old.loc, rc if isinstance(rc, NDArr) else c)   # in-place array update
        return
    if isinstance(t, ast.Name):
        self.assign(t, r)
    elif isinstance(t, ast.Attribute):
        self.setattr_(obj, t.attr, r)
    else:
        self.setitem(obj, ix, r)


@vcm
def st_Delete(self, s):
    for t in s.targets:
        if isinstance(t, ast.Name):
            self.frame.vars.pop(t.id, None)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval_index(t.slice)
            self.delitem(o, k)
        else:
            raise Unsupported('del')


@vcm
def delitem(self, o, k):
    if isinstance(o, Rec) and '__delitem__' in self.st.objs[o.oid]:
        return self.call(self.st.objs[o.oid]['__delitem__'], [k], {})
    c = self.content(o)
    if isinstance(c, PyDict):
        d = dict(c.d)
        if k not in d:
            self.require(False, 'KeyError', 'del')
            raise V.PathDead()
        del d[k]
        self.store(o.loc, PyDict(d))
        return
    if isinstance(c, DictC):
        q0 = self.pack_key(k, c.kt)
        self.require(c.has(q0), 'KeyError', 'del')
        has, val, key, idx, n = c.has, c.val, c.key, c.idx, zint_(c.n)
        j = idx(q0)
        self.store(o.loc, DictC(c.kt, c.vt, n - 1,
                                lambda i: z3.If(zint_(i) < j, key(i), key(zint_(i) + 1)),
                                lambda q: z3.And(q != q0, has(q)), val,
                                lambda q: z3.If(idx(q) > j, idx(q) - 1, idx(q))))
        return
    raise Unsupported('del item')


@vcm
def st_If(self, s):
    c = self.truth(self.eval(s.test))
    if self.branch(c):
        self.exec_block(s.body)
    else:
        self.exec_block(s.orelse)


@vcm
def st_Return(self, s):
    raise V.ReturnX(None if s.value is None else self.eval(s.value))


@vcm
def st_Break(self, s): raise V.BreakX()
@vcm
def st_Continue(self, s): raise V.ContinueX()


@vcm
def st_Assert(self, s):
    c = self.truth(self.eval(s.test))
    self.require(c, 'AssertionError', 'assert %s' % ast.unparse(s.test)[:60])


@vcm
def st_Raise(self, s):
    if s.exc is None:
        raise V.PyRaise(self.frame.vars.get('$exc', 'Exception'))
    e = s.exc
    f = e.func if isinstance(e, ast.Call) else e
    v = self.eval(f)
    name = v.name if isinstance(v, (V.ExcClassV, V.ClassV)) else None
    if name is None:
        raise Unsupported('raise of %r' % (v,))
    raise V.PyRaise(name)


@vcm
def st_Try(self, s):
    if s.finalbody:
        raise Unsupported('finally')
    names = []
    for h in s.handlers:
        if h.type is None: names.append(['BaseException'])
        else:
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            names.append([self.exc_name(t) for t in ts])
    self.handlers.append([x for l in names for x in l])
    d = len(self.handlers)
    try:
        try:
            self.exec_block(s.body)
        finally:
            del self.handlers[d - 1:]
    except V.PyRaise as r:
        for h, ns in zip(s.handlers, names):
            if any(self.is_sub(r.cls, x) for x in ns):
                if h.name:
                    self.frame.vars[h.name] = T(OPAQUE, self.fresh('exc', z3.IntSort()))
                self.frame.vars['$exc'] = r.cls
                self.exec_block(h.body)
                return
        raise
    self.exec_block(s.orelse)


@vcm
def exc_name(self, t):
    v = self.eval(t)
    return getattr(v, 'name', None) or 'Exception'


@vcm
def st_With(self, s):
    raise Unsupported('with')


@vcm
def st_FunctionDef(self, s):
    fr = self.frame
    defaults = None
    self.frame.vars[s.name] = V.FuncV(s, fr.mod, fr.cls, fr, (getattr(fr, 'fn', None) or '') + '.<locals>.' + s.name)


# ------------------------------------------------------------------ calls
@vcm
def ev_Call(self, n):
    if self.is_skipped_call(n):
        return None
    if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
        f = self.frame
        while f is not None and 'self' not in f.vars and 'cls' not in f.vars:
            f = f.parent
        return V.SuperV(self.frame.cls, f.vars.get('self', f.vars.get('cls')))
    if self.spec_mode and isinstance(n.func, ast.Name) and n.func.id in ('old', 'entry'):
        snap = self.lookup('$' + n.func.id)
        arg = n.args[0]
        return self.old_eval(snap, arg)
    f = self.eval(n.func)
    args = []
    for a in n.args:
        if isinstance(a, ast.Starred):
            v = self.eval(a.value)
            if isinstance(v, tuple):
                args.extend(v)
            else:
                args.append(('*', v))
        elif isinstance(a, ast.GeneratorExp):
            args.append(self.ev_ListComp(a, gen=True))
        else:
            args.append(self.eval(a))
    kw = {}
    for k in n.keywords:
        if k.arg is None:
            d = self.content(self.eval(k.value))
            if isinstance(d, PyDict):
                kw.update(d.d)
                continue
            raise Unsupported('**kwargs')
        kw[k.arg] = self.eval(k.value)
    return self.call(f, args, kw, n)


@vcm
def old_eval(self, snap, arg):
    # names bound inside the specification (quantified variables) stay visible
    saved_frame = self.frame
    def run():
        return self.freeze(self.eval(arg))
    return self.with_snapshot(snap, run)


@vcm
def freeze(self, v):
    """Detaches a value from the state it was read in."""
    if isinstance(v, Handle):
        return self.new_cell(self.load(v.loc))
    if isinstance(v, tuple):
        return tuple(self.freeze(x) for x in v)
    return v


@vcm
def call(self, f, args, kw, node=None):
    if isinstance(f, V.BuiltinV):
        return f.fn(self, args, kw)
    if isinstance(f, V.MethodV):
        return self.call_method(f.obj, f.name, args, kw)
    if isinstance(f, V.BoundV):
        return self.call_function(f.fn, [f.self_] + list(args), kw)
    if isinstance(f, V.FuncV):
        return self.call_function(f, args, kw)
    if isinstance(f, V.ClassV):
        return self.instantiate(f, args, kw)
    if isinstance(f, V.TypeV):
        return self.call_type(f.name, args, kw)
    if isinstance(f, V.ExcClassV):
        return T(OPAQUE, self.fresh('exc', z3.IntSort()))
    if isinstance(f, Rec):
        src = self.world.rec_src.get(f.cls)
        cls = self.class_of(src) if src else None
        m = self.class_member(cls, '__call__') if cls else None
        if m is not None:
            return self.call_function(m, [f] + list(args), kw)
    raise Unsupported('call of %r' % (f,))


@vcm
def bind_args(self, fn, args, kw):
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    vars = {}
    args = list(args)
    pos = args[:len(names)]
    for nme, v in zip(names, pos):
        vars[nme] = v
    rest = args[len(names):]
    if a.vararg is not None:
        vars[a.vararg.arg] = tuple(rest)
    elif rest:
        raise Unsupported('too many arguments for %s' % fn.qual)
    extra = {}
    for k, v in kw.items():
        if k in names or k in [x.arg for x in a.kwonlyargs]:
            vars[k] = v
        else:
            extra[k] = v
    if a.kwarg is not None:
        vars[a.kwarg.arg] = self.new_cell(PyDict(extra))
    elif extra:
        raise Unsupported('unexpected keyword %s' % list(extra))
    defs = list(zip(names[len(names) - len(a.defaults):], a.defaults))
    defs += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    for nme, d in defs:
        if nme not in vars:
            saved = self.frame
            self.frame = V.Frame({}, fn.mod, fn.cls, fn.frame)
            try:
                vars[nme] = self.eval(d)
            finally:
                self.frame = saved
    for nme in names + [x.arg for x in a.kwonlyargs]:
        if nme not in vars:
            raise Unsupported('missing argument %s of %s' % (nme, fn.qual))
    return vars


@vcm
def call_function(self, fn, args, kw):
    if any(isinstance(a, tuple) and len(a) == 2 and a[0] == '*' for a in args):
        raise Unsupported('starred call')
    c = self.world.contracts.get(fn.qual)
    if fn.qual in self.world.select: c = self.world.contracts.get(fn.qual + '#' + self.world.select[fn.qual](self, args, kw), c)
    if c is not None and not (self.cur is c and not self.in_body):
        if not c.opts.get('inline'):
            return self.apply_contract(c, fn, args, kw)
    return self.inline(fn, args, kw)


@vcm
def inline(self, fn, args, kw):
    if self.depth > 12:
        raise Unsupported('inlining too deep: %s' % fn.qual)
    vars = self.bind_args(fn, args, kw)
    fr = V.Frame(vars, fn.mod, fn.cls, fn.frame, fn.qual)
    if isinstance(fn, V.LambdaV):
        self.frames.append(fr)
        saved = self.frame
        self.frame = fr
        try:
            return self.eval(fn.node.body)
        finally:
            self.frame = saved
    self.inlined.add(fn.qual)
    gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn.node))
    if gen:
        vars['$yield'] = self.new_cell(SeqC(0, None, None))
    self.frames.append(fr)
    saved = self.frame
    self.frame = fr
    self.depth += 1
    old_in = self.in_body
    self.in_body = True
    try:
        self.exec_block(fn.node.body)
        r = None
    except V.ReturnX as x:
        r = x.v
    finally:
        self.frame = saved
        self.depth -= 1
        self.in_body = old_in
    if gen:
        return vars['$yield']
    return r


@vcm
def instantiate(self, cls, args, kw):
    ext = self.world.externals.get(cls.qual)
    if ext is not None:
        self.used_externals.add(cls.qual)
        return ext(self, list(args), dict(kw))
    h = self.world.heap_map.get(cls.qual)
    if h is not None:
        ref = self.st.alloc
        if ref is None:
            raise Unsupported('no allocation counter')
        self.st.alloc = ref + 1
        obj = T(RefT(h), ref)
    else:
        rn = self.world.rec_map.get(cls.qual, cls.node.name)
        oid = 'o%d_%s' % (next(self.counter), cls.node.name)
        self.st.objs[oid] = {}
        obj = Rec(oid, rn)
        if rn not in self.world.rec_src:
            self.dyn_src[rn] = cls.qual
    init = self.class_member(cls, '__init__')
    if init is not None:
        self.call_function(init, [obj] + list(args), kw)
    return obj


# ------------------------------------------------------------------ comprehensions
@vcm
def ev_GeneratorExp(self, n):
    return self.ev_ListComp(n, gen=True)


@vcm
def ev_ListComp(self, n, gen=False):
    if len(n.generators) != 1:
        return self.nested_comp(n)
    g = n.generators[0]
    it = self.iterate(self.eval(g.iter))
    return self.new_cell(self.comprehend(it, g, n.elt))


@vcm
def ev_SetComp(self, n):
    g = n.generators[0]
    if len(n.generators) != 1: raise Unsupported('nested comprehension')
    it = self.iterate(self.eval(g.iter))
    s = self.comprehend(it, g, n.elt)
    i = z3.Int('i!sc')
    return self.new_cell(SetC(s.e, lambda x: z3.Exists([i], z3.And(0 <= i, i < zint_(s.n), s.at(i) == x))))


@vcm
def const_len(self, n):
    if isinstance(n, int): return n
    s = z3.simplify(n)
    return s.as_long() if z3.is_int_value(s) else None


@vcm
def comp_frame(self, target, value):
    fr = V.Frame({}, self.frame.mod, self.frame.cls, self.frame, self.frame.fn)
    self.frames.append(fr)
    self.frame = fr
    self.assign(target, value)


@vcm
def comprehend(self, it, g, elt):
    """Contents of [elt for target in it if conds]."""
    n = self.const_len(it.n)
    frame0 = self.frame
    if n is not None and n <= 16:
        vals = []
        for k in range(n):
            self.comp_frame(g.target, it.at(z3.IntVal(k)))
            try:
                if all(self.branch(self.truth(self.eval(c))) for c in g.ifs):
                    vals.append(self.eval(elt))
            finally:
                self.frame = frame0
        try:
            return self.seq_of_values(vals)
        except Unsupported:
            return PyList(vals)
    return self.generic_comp(it, lambda v: self.comp_frame(g.target, v), g.ifs, elt, frame0)


@vcm
def generic_comp(self, it, bind, ifs, elt, frame0):
    k = self.fresh('ck', z3.IntSort())
    nn = zint_(it.n)
    mark = len(self.pc)
    c0 = next(self.counter)
    rng = z3.And(0 <= k, k < nn)

    def body():
        self.pc.append(rng)
        bind(it.at(k))
        try:
            keep = True
            for c in ifs:
                t = self.truth(self.eval(c))
                if not self.branch(t):
                    return ('skip', None)
            return ('keep', self.narrow(self.eval(elt)))
        finally:
            self.frame = frame0
    fields0 = dict(self.st.fields)
    alloc0 = self.st.alloc
    rs = self.explore(body)
    for r in rs:
        if r.kind == 'raise':
            catch = any(self.is_sub(r.value.cls, h) for hs in self.handlers for h in hs)
            if catch or r.value.cls in self.cur.raises or r.value.cls in self.cur.may_raise:
                raise Unsupported('comprehension may raise')
            self.oblige('no %s in comprehension' % r.value.cls, z3.Not(z3.And(*r.cond)))
        st = r.snap[0][0]
        if st.alloc is not alloc0:
            return self.alloc_comp(it, rs, k, rng, alloc0, fields0)
        for f, a in st.fields.items():
            if f in fields0 and not fields0[f].eq(a):
                raise Unsupported('comprehension modifies the heap')
        for cid, cont in self.st.cells.items():
            if st.cells.get(cid) is not cont:
                raise Unsupported('comprehension modifies a container')
    rs = [r for r in rs if r.kind == 'ok']
    for r in rs:
        self.adopt_cells(r, facts=False)
    keeps = [r for r in rs if r.value[0] == 'keep']
    if not keeps:
        return SeqC(0, None, None)
    # element type
    e = None
    for r in keeps:
        e = self.join(e, self.type_of(r.value[1]))
    if e is None:
        raise Unsupported('element type')
    term, cond = None, []
    facts = []
    n_before = len(self.pc)
    for r in reversed(keeps):
        g = [f for f in r.cond if self.is_dec(f)]
        gg = z3.And(*g) if g else z3.BoolVal(True)
        p0 = len(self.pc)
        t = self.pack(r.value[1], e)
        facts += [z3.Implies(gg, f) for f in self.pc[p0:]]
        del self.pc[p0:]
        before = []                               # a fact holds whatever is decided after it
        for f in r.cond:
            if self.is_dec(f): before.append(f)
            elif not f.eq(rng): facts.append(z3.Implies(z3.And(*before), f) if before else f)
        cond.append(gg)
        term = t if term is None else z3.If(gg, t, term)
    keepcond = z3.Or(*cond) if len(cond) > 1 else cond[0]
    # constants created in the body depend on k: skolemise
    names = [nm for nm in V.consts_of([term, keepcond] + facts) if _fresh_since(nm, c0)]
    names = [nm for nm in names if nm != k.decl().name()]
    subs = []
    if names:
        for nm, cst in _collect_consts([term, keepcond] + facts, set(names)):
            fn = z3.Function('sk_' + nm, z3.IntSort(), cst.sort())
            subs.append((cst, fn(k)))
        if any('%s' % nm not in [str(c) for c, _ in subs] for nm in names):
            raise Unsupported('functions created in a comprehension')
        term = z3.substitute(term, *subs)
        keepcond = z3.substitute(keepcond, *subs)
        facts = [z3.substitute(f, *subs) for f in facts]
    for f in facts:
        self.assume(z3.ForAll([k], z3.Implies(rng, f)))
    if not ifs:
        def at(i):
            return z3.substitute(term, (k, zint_(i)))
        return SeqC(it.n, e, at)
    return self.filter_seq(nn, e, lambda i: z3.substitute(term, (k, i)), lambda i: z3.substitute(keepcond, (k, i)))


@vcm
def narrow(self, v):
    """The value as the only alternative of its union type that is possible here."""
    if isinstance(v, T) and isinstance(v.ty, UnionT) and not self.spec_mode and len(v.ty.alts) > 1:
        for i, a in enumerate(v.ty.alts):
            if a == NONE: continue
            if not self.feasible(z3.Not(v.ty.is_alt(v.t, i))):
                return self.unpack(a, v.ty.val(v.t, i))
    return v


def _offset(t, i):
    """(array, d) of a subterm array[d + i] where array and d do not contain i and d is not zero"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x) or not z3.is_app(x): continue
        seen.add(x.get_id())
        if z3.is_select(x) and not _mentions(x.arg(0), i) and _mentions(x.arg(1), i) and z3.is_add(x.arg(1)):
            rest = [c for c in x.arg(1).children() if not c.eq(i)]
            if len(rest) == len(x.arg(1).children()) - 1 and not any(_mentions(c, i) for c in rest):
                return x.arg(0), (rest[0] if len(rest) == 1 else z3.Sum(rest))
        todo.extend(x.children())
    return None


def _mentions(t, i):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(i): return True
        todo.extend(x.children())
    return False


def _beta(lam, x):
    return z3.substitute_vars(lam.body(), x)


@vcm
def filter_seq(self, n, e, term, keep):
    """Subsequence of term(i) for i < n with keep(i), in order."""
    q = z3.Int('q!flt')
    lam = z3.Lambda([q], z3.And(0 <= q, q < n, keep(q)))
    # equal conditions over equal ranges select the same positions
    key = z3.simplify(lam).get_id()
    cache = self.__dict__.setdefault('_filters', {})
    if key in cache:
        _, g, h, ln, facts = cache[key]
        for f in facts: self.assume(f)
        r = SeqC(ln, e, lambda q: term(g(zint_(q))))
        r.filter, r.base_term = (n, g, h, keep), term
        return r
    u = next(self.counter)
    g = z3.Function('sel!%d' % u, z3.IntSort(), z3.IntSort())
    h = z3.Function('pos!%d' % u, z3.IntSort(), z3.IntSort())
    ln = self.fresh('flen', z3.IntSort())
    i, j = z3.Ints('i!f j!f')
    facts = [ln >= 0, ln <= n,
             z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln),
                z3.And(0 <= g(i), g(i) < n, keep(g(i)), h(g(i)) == i)), patterns=[g(i)]),
             z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, keep(i)),
                z3.And(0 <= h(i), h(i) < ln, g(h(i)) == i)), patterns=[h(i)]),
             z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < ln), g(i) < g(j)),
                          patterns=[z3.MultiPattern(g(i), g(j))])]
    off = _offset(z3.simplify(keep(i)), i)
    if off is not None:
        # elements of a slice: the same fact about positions of the sliced list
        arr, d = off
        m = z3.Int('m!f')
        o = z3.simplify(m - d)
        facts.append(z3.ForAll([m], z3.Implies(z3.simplify(z3.And(0 <= o, o < n, keep(o))), z3.And(0 <= h(o), h(o) < ln, g(h(o)) == o)),
                               patterns=[z3.Select(arr, m)]))
    if getattr(self.world, 'prefix_filters', False):
        # number of leading positions that are kept; they keep their places
        p = self.fresh('lead', z3.IntSort())
        facts += [p >= 0, p <= z3.If(n > 0, n, 0), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p), keep(i))),
                  z3.Implies(p < n, z3.Not(keep(p))), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p), z3.And(g(i) == i, h(i) == i)), patterns=[g(i)]),
                  p <= ln, z3.Implies(p > 0, keep(p - 1)), z3.Implies(ln > p, z3.And(g(p) > p, g(p) < n, keep(g(p))))]
    # the increasing enumeration of a finite set of positions is unique
    for lam2, g2, h2, ln2, _ in list(cache.values())[-6:]:
        dom = lambda x: z3.And(0 <= x, x < n, keep(x))
        facts.append(z3.Implies(z3.ForAll([q], dom(q) == _beta(lam2, q)),
                                z3.And(ln == ln2, z3.ForAll([i], g(i) == g2(i), patterns=[g(i)]), z3.ForAll([i], g(i) == g2(i), patterns=[g2(i)]))))
    for f in facts: self.assume(f)
    cache[key] = (z3.simplify(lam), g, h, ln, facts)
    r = SeqC(ln, e, lambda q: term(g(zint_(q))))
    r.filter, r.base_term = (n, g, h, keep), term
    return r


@vcm
def alloc_comp(self, it, rs, k, rng, alloc0, fields0):
    """[Obj(...) for ...]: one fresh object per element."""
    if len(rs) != 1 or rs[0].kind != 'ok' or rs[0].value[0] != 'keep':
        raise Unsupported('conditional allocation in a comprehension')
    r = rs[0]
    v = r.value[1]
    st = r.snap[0][0]
    if not (isinstance(v, T) and isinstance(v.ty, RefT) and v.t.eq(alloc0)):
        raise Unsupported('allocation in a comprehension')
    if not z3.simplify(st.alloc - alloc0 - 1).eq(z3.IntVal(0)):
        raise Unsupported('several allocations per element')
    nn = zint_(it.n)
    facts = [f for f in r.cond if not f.eq(rng)]
    if facts:
        raise Unsupported('facts in allocating comprehension')
    x = z3.Int('x!al')
    for key, a in st.fields.items():
        b = fields0.get(key)
        if b is None:
            b = z3.Const('fld_%s_%s' % key, a.sort())
        if b.eq(a):
            continue
        new = self.fresh('fld_%s_%s' % key, a.sort())
        val = z3.simplify(z3.Select(a, alloc0))
        body = z3.substitute(val, (k, x - alloc0))
        self.assume(z3.ForAll([x], z3.Select(new, x) == z3.If(z3.And(alloc0 <= x, x < alloc0 + nn), body,
                                                           z3.Select(b, x)), patterns=[z3.Select(new, x)]))
        self.st.fields[key] = new
    self.st.alloc = alloc0 + nn
    return SeqC(it.n, v.ty, lambda i: alloc0 + zint_(i))


def _fresh_since(nm, c0):
    if '!' not in nm:
        return False
    s = nm.rsplit('!', 1)[1]
    return s.isdigit() and int(s) > c0


def _collect_consts(ts, names):
    out, seen = {}, set()
    todo = list(ts)
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
            out[x.decl().name()] = x
        todo.extend(x.children())
    return list(out.items())


@vcm
def nested_comp(self, n):
    raise Unsupported('nested comprehension')


@vcm
def ev_DictComp(self, n):
    if len(n.generators) != 1:
        raise Unsupported('nested dict comprehension')
    g = n.generators[0]
    it = self.iterate(self.eval(g.iter))
    elt = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
    s = self.comprehend(it, g, ast.fix_missing_locations(ast.copy_location(elt, n)))
    return self.dict_from_pairs(s)


@vcm
def dict_from_pairs(self, s):
    if isinstance(s, PyList):
        raise Unsupported('heterogeneous dict')
    if s.e is None:
        return self.new_cell(DictC(None, None, 0, None, None, None, None))
    kt, vt = s.e.ts
    ty = DictT(kt, vt)
    d = self.fresh('dc', ty.sort)
    for f in self.wf(ty, d):
        self.assume(f)
    c = self.unpack_content(ty, d)
    n = zint_(s.n)
    i, j = z3.Ints('i!dc j!dc')
    q = z3.Const('q!dc', kt.sort)
    K = lambda x: s.e.get(s.at(x), 0)
    Vv = lambda x: s.e.get(s.at(x), 1)
    last = z3.Function('last!%d' % next(self.counter), kt.sort, z3.IntSort())
    self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n),
                z3.And(c.has(K(i)), last(K(i)) >= i))))
    self.assume(z3.ForAll([q], z3.Implies(c.has(q), z3.And(0 <= last(q), last(q) < n, K(last(q)) == q,
                c.val(q) == Vv(last(q)))), patterns=[c.has(q)]))
    self.assume(c.n <= n)
    r = self.new_cell(c)
    return r


# ------------------------------------------------------------------ iteration
@vcm
def iterate(self, v):
    if isinstance(v, Iter): return v
    if isinstance(v, T) and isinstance(v.ty, UnionT): v = self.split(v)
    if isinstance(v, V.RangeV):
        lo, hi, st = v.lo, v.hi, v.step
        if not isinstance(st, int) or st not in (1, -1):
            raise Unsupported('range step')
        a, b = self.intt(lo), self.intt(hi)
        if st == 1:
            n = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
            return Iter(n, lambda i: self.mkint(a + zint_(i)))
        n = z3.simplify(z3.If(a > b, a - b, z3.IntVal(0)))
        return Iter(n, lambda i: self.mkint(a - zint_(i)))
    if isinstance(v, tuple):
        vals = list(v)
        return Iter(z3.IntVal(len(vals)), lambda i: self._pick(vals, i))
    c = self.content(v)
    if isinstance(c, PyList):
        return Iter(z3.IntVal(len(c.vals)), lambda i: self._pick(c.vals, i))
    if isinstance(c, SeqC):
        if c.e is None:
            return Iter(z3.IntVal(0), lambda i: None)
        if hasattr(c, 'vals') and isinstance(c.n, int):
            return Iter(z3.IntVal(len(c.vals)), lambda i: self._pick_seq(v, c, i))
        return Iter(zint_(c.n), lambda i: self.elem_value(v, c, zint_(i)))
    if isinstance(c, DictC):
        if c.kt is None: return Iter(z3.IntVal(0), lambda i: None)
        return Iter(zint_(c.n), lambda i: self.unpack(c.kt, c.key(zint_(i))))
    if isinstance(c, NDArr):
        if len(c.shape) == 1:
            return Iter(zint_(c.shape[0]), lambda i: self.unpack(c.e, c.at(zint_(i))))
        return Iter(zint_(c.shape[0]), lambda i: self.nd_getitem(c, T(INT, zint_(i)), checked=True))
    if isinstance(v, Rec):
        attrs = self.st.objs[v.oid]
        if '__iter__' in attrs:
            return self.iterate(self.call(attrs['__iter__'], [], {}))
        src = self.world.rec_src.get(v.cls)
        cls = self.class_of(src) if src else None
        m = self.class_member(cls, '__iter__') if cls else None
        if m is not None:
            return self.iterate(self.call_function(m, [v], {}))
    if isinstance(v, T) and isinstance(v.ty, RefT):
        return self.iterate(self.call(self.getattr_(v, '__iter__'), [], {}))
    raise Unsupported('iteration over %r' % (v,))


@vcm
def _pick(self, vals, i):
    s = z3.simplify(zint_(i))
    if z3.is_int_value(s):
        return vals[s.as_long()]
    return self.unpack_seq_at(self.seq_of_values(vals), i)


@vcm
def _pick_seq(self, v, c, i):
    s = z3.simplify(zint_(i))
    if z3.is_int_value(s):
        return c.vals[s.as_long()]
    return self.elem_value(v, c, zint_(i))


@vcm
def unpack_seq_at(self, c, i):
    return self.unpack(c.e, c.at(zint_(i)))
