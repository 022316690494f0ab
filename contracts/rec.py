"""Recursive ghost functions over prefixes of lists: f(lists..., k), unfolded on ground terms."""
import z3
from pyvc.types import *

SORT = {'int': (z3.IntSort(), INT), 'real': (z3.RealSort(), REAL), 'bool': (z3.BoolSort(), BOOL)}


def prefix_fn(w, name, lists, ret, base, step, nonneg=False):
    """name(l1, ..., lm, k) = base for k <= 0, step(arrays, k - 1, g) otherwise; g(other, j) is the value of a function at j."""
    tys = [parse_type(t) for t in lists]
    sort, rty = SORT[ret]
    f = z3.Function(name, *([z3.ArraySort(z3.IntSort(), t.e.sort) for t in tys] + [z3.IntSort(), sort]))

    def unfold(t):
        arrs = [t.arg(i) for i in range(len(tys))]
        n = t.arg(len(tys))
        j = z3.simplify(n - 1)
        g = lambda other, i: other(*(arrs + [i]))
        r = [z3.Implies(n <= 0, t == base), z3.Implies(n > 0, t == step(arrs, j, g))]
        if nonneg: r.append(t >= 0)
        return r
    w.recfns[name] = unfold

    def spec(vc, args, k):
        return T(rty, f(*([z3.simplify(ty.arr(vc.pack(a, ty))) for ty, a in zip(tys, args)] + [vc.intt(args[len(tys)])])))
    w.specfns[name] = spec
    return f
