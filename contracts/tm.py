"""Theano tensors as immutable arrays: the functions that build an expression are executed
with every symbolic input standing for an arbitrary array, so the expression they build is
known for all inputs. theano.function records its inputs, outputs and substitutions."""
import ast
import z3
from pyvc.types import *
from pyvc import vc as V
from pyvc.vc import BuiltinV
from pyvc.builtinsmixin import x_cmp, LOG, zint, nd_total

ASSUMPTIONS = ['Theano operations (elementwise arithmetic, comparison, log, sqrt, switch, clip, slicing, indexing, set_subtensor, sum, cast) compute what the operation of the same name means on arrays of mathematical numbers; shape mismatches are errors inside Theano',
               'theano.function(inputs, outputs, givens) evaluates the outputs with the inputs replaced by the arguments and the givens substituted',
               'network outputs (target_probs) are arbitrary arrays determined by the network inputs']


class NonZero:
    """Positions where a mask holds."""
    def __init__(self, mask): self.mask = mask

    def select(self, vc, c): return Selected(c, self.mask)


class Selected:
    def __init__(self, c, mask): self.c, self.mask = c, mask

    def vc_method(self, vc, name, args, kw):
        if name != 'sum' or args or kw: raise Unsupported('%s of selected elements' % name)
        return nd_total(vc, conc(vc, vc.elementwise([self.mask, self.c], lambda m, x: vc.ite(vc.truth(m), x, T(REAL, z3.RealVal(0))))))


class Fn:
    def __init__(self, ins, outs, givens, updates): self.ins, self.outs, self.givens, self.updates = ins, outs, givens, updates


def fresh_nd(vc, nd, e, name):
    v = vc.fresh_value(NDT(e, nd), name)
    return vc.content(v)


def conc(vc, v):
    c = vc.content(v) if isinstance(v, Handle) else v
    return c


def theano(w):
    ety = lambda k: INT if 'int' in str(k.get('dtype', '')) else REAL
    for nm, nd in (('vector', 1), ('matrix', 2), ('tensor3', 3)):
        w.externals['theano.tensor.' + nm] = lambda vc, a, k, nd=nd, nm=nm: fresh_nd(vc, nd, ety(k), nm)
    w.externals['theano.tensor.scalar'] = lambda vc, a, k: T(ety(k), vc.fresh('scalar', ety(k).sort))
    for nm, op in (('ge', ast.GtE()), ('gt', ast.Gt()), ('le', ast.LtE()), ('lt', ast.Lt()), ('eq', ast.Eq()), ('neq', ast.NotEq())):
        w.externals['theano.tensor.' + nm] = lambda vc, a, k, op=op: _cmp(vc, op, a[0], a[1])
    w.externals['theano.tensor.log'] = lambda vc, a, k: _map(vc, a[0], lambda x: T(REAL, LOG(vc.real(x))))
    sq = z3.Function('SQRT', z3.RealSort(), z3.RealSort())

    def sqrt(vc, a, k):
        def one(x):
            r = sq(vc.real(x))
            vc.assume(z3.Implies(vc.real(x) >= 0, z3.And(r >= 0, r * r == vc.real(x))))
            return T(REAL, r)
        return _map(vc, a[0], one)
    w.externals['theano.tensor.sqrt'] = sqrt
    w.externals['theano.tensor.cast'] = lambda vc, a, k: a[0]
    w.externals['theano.tensor.switch'] = lambda vc, a, k: _n(vc, a, lambda c, x, y: vc.ite(vc.truth(c), x, y))
    w.externals['theano.tensor.minimum'] = lambda vc, a, k: _n(vc, a, lambda x, y: vc.ite(vc.truth(vc.compare_s(ast.LtE(), x, y)), x, y))
    w.externals['theano.tensor.clip'] = lambda vc, a, k: _n(vc, a, lambda x, lo, hi: T(REAL, z3.If(vc.real(x) < vc.real(lo), vc.real(lo), z3.If(vc.real(x) > vc.real(hi), vc.real(hi), vc.real(x)))))
    w.externals['theano.tensor.sqr'] = lambda vc, a, k: _map(vc, a[0], lambda x: vc.binop_s(ast.Mult(), x, x))
    w.externals['theano.tensor.sum'] = lambda vc, a, k: nd_total(vc, conc(vc, a[0]))
    w.externals['theano.tensor.abs_'] = lambda vc, a, k: _map(vc, a[0], lambda x: T(REAL, z3.If(vc.real(x) < 0, -vc.real(x), vc.real(x))))

    def set_subtensor(vc, a, k):
        s, v = a
        if not isinstance(s, Selected): raise Unsupported('set_subtensor')
        return vc.elementwise([s.mask, s.c], lambda m, x: vc.ite(vc.truth(m), v, x))
    w.externals['theano.tensor.set_subtensor'] = set_subtensor

    def inc_subtensor(vc, a, k): raise Unsupported('inc_subtensor')
    w.externals['theano.tensor.inc_subtensor'] = inc_subtensor

    def function(vc, a, k):
        ins = [x for x in _items(vc, a[0])]
        outs = _items(vc, a[1]) if len(a) > 1 else []
        giv = []
        for p in _items(vc, k.get('givens', ())):
            p = _items(vc, p)
            giv.append((p[0], conc(vc, p[1])))
        r = vc.new_record(RecT('TheanoFn', {}), 'fn')
        vc.st.objs[r.oid]['ghost'] = Fn(ins, [conc(vc, o) for o in outs], giv, k.get('updates'))
        return r
    w.externals['theano.function'] = function
    w.record('TheanoFn')
    w.contract('theanolm/backend/matrixfunctions.py::test_value', assume_only=True, returns='opaque', params={'size': 'opaque', 'high': 'opaque'}, note='debugging values only')
    gh = lambda vc, f: vc.st.objs[f.oid]['ghost']
    w.specfns['FIN'] = lambda vc, a, k: gh(vc, a[0]).ins[a[1]]
    w.specfns['FOUT'] = lambda vc, a, k: gh(vc, a[0]).outs[a[1]]

    def given(vc, a, k):
        r = [v for x, v in gh(vc, a[0]).givens if x is a[1] or (isinstance(x, T) and isinstance(a[1], T) and x.t.eq(a[1].t))]
        if len(r) != 1: raise Unsupported('given is missing')
        return r[0]
    w.specfns['GIVEN'] = given
    w.specfns['ISVAR'] = lambda vc, a, k: a[0] is a[1]


def _items(vc, v):
    c = vc.content(v) if isinstance(v, Handle) else v
    if isinstance(c, tuple): return list(c)
    if hasattr(c, 'vals'): return list(c.vals)
    raise Unsupported('list of tensors')


def _map(vc, x, f):
    c = conc(vc, x)
    return vc.elementwise([c], f) if isinstance(c, NDArr) else f(c)


def _n(vc, a, f):
    cs = [conc(vc, x) for x in a]
    return vc.elementwise(cs, f) if any(isinstance(c, NDArr) for c in cs) else f(*cs)


def _cmp(vc, op, x, y):
    r = x_cmp(op)(vc, [x, y], {})
    return r
