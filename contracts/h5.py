"""Model of an HDF5 group with named datasets (assumed semantics of h5py).

A group is a record with one attribute per dataset, None when the dataset does
not exist. require_group returns the group itself."""
from pyvc.types import *
from pyvc.vc import BuiltinV, Rec, PathDead, PathDead

ASSUMPTIONS = ['h5py: create_dataset stores the data and fails if the dataset exists, dataset[:] = data replaces the content and '
               'fails if the shapes differ, dataset.value and dataset[...] return it, del removes a dataset, `in` tests existence']


def new_obj(vc, cls, attrs):
    vc.world.records.setdefault(cls, RecT(cls, {}))
    oid = 'o%d_%s' % (next(vc.counter), cls)
    vc.st.objs[oid] = dict(attrs)
    return Rec(oid, cls)


def attributes(vc, types):
    """The attribute collection of a group; values may be absent unless the type ends in '!'."""
    r = new_obj(vc, 'H5A', {d: vc.fresh_value(vc.world.ty(t[:-1] if t.endswith('!') else 'opt[%s]' % t), d) for d, t in types.items()})
    return r, {'__contains__': BuiltinV('contains', lambda vc, a, k: vc.mkbool(vc.neg(vc.eq(_at(vc, r, a[0]), None)))),
               '__getitem__': BuiltinV('getitem', lambda vc, a, k: _req(vc, _at(vc, r, a[0]), a[0])),
               '__setitem__': BuiltinV('setitem', lambda vc, a, k: vc.st.objs[r.oid].__setitem__(a[0], vc.freeze(a[1])) if _at(vc, r, a[0], True) is None else None)}


def _at(vc, r, n, check=False):
    if n not in vc.st.objs[r.oid]: raise Unsupported('attribute %r' % (n,))
    return None if check else vc.st.objs[r.oid][n]


def _req(vc, v, n):
    v = vc.split(v)
    if v is None:
        vc.require(False, 'KeyError', 'attribute ' + n)
        raise PathDead()
    return v


def group(vc, name, types, child=None, attrs_=None):
    """A group record; types: dataset name -> type string (may be absent); child: (name, group[, condition that it exists])."""
    attrs = {}
    if attrs_ is not None:
        ar, meth = attributes(vc, attrs_)
        vc.st.objs[ar.oid].update(meth)
        attrs['attrs'] = ar
    for d, t in types.items():
        attrs[d] = None if t is None else vc.fresh_value(vc.world.ty(t[:-1] if t.endswith('!') else 'opt[%s]' % t), d)
    r = new_obj(vc, 'H5', attrs)
    A = vc.st.objs[r.oid]

    def has(vc, a, k):
        if child and a[0] == child[0]: return True if len(child) < 3 else vc.mkbool(child[2])
        d = vc.st.objs[r.oid].get(a[0])
        return vc.mkbool(vc.neg(vc.eq(d, None)))

    def get(vc, a, k):
        if child and a[0] == child[0]:
            if len(child) > 2: vc.require(child[2], 'KeyError', 'group ' + child[0])
            return child[1]
        n = a[0]
        if n not in vc.st.objs[r.oid]: raise Unsupported('dataset %r' % (n,))
        d = vc.split(vc.st.objs[r.oid][n])
        if d is None:
            vc.require(False, 'KeyError', 'dataset ' + n)
            raise PathDead()

        def setitem(vc, b, kk):
            cur, new = vc.as_nd(vc.st.objs[r.oid][n]), vc.as_nd(b[1])
            vc.require(cur.shape[0] == new.shape[0], 'TypeError', 'shape of dataset ' + n)
            vc.st.objs[r.oid][n] = vc.new_cell(new)
        return new_obj(vc, 'DS', {'value': d, '__getitem__': BuiltinV('getitem', lambda vc, b, kk: d), '__setitem__': BuiltinV('setitem', setitem)})

    def create(vc, a, k):
        d = vc.split(vc.st.objs[r.oid][a[0]])
        vc.require(d is None, 'RuntimeError', 'dataset %s does not exist' % a[0])
        vc.st.objs[r.oid][a[0]] = vc.new_cell(vc.as_nd(k['data'] if 'data' in k else a[1]))

    def delete(vc, a, k):
        d = vc.split(vc.st.objs[r.oid][a[0]])
        vc.require(d is not None, 'KeyError', 'dataset ' + a[0])
        vc.st.objs[r.oid][a[0]] = None

    def reqgroup(vc, a, k):
        if child and a[0] == child[0]: return child[1]
        raise Unsupported('group ' + a[0])
    A.update({'__contains__': BuiltinV('contains', has), '__getitem__': BuiltinV('getitem', get), 'create_dataset': BuiltinV('create_dataset', create),
              '__delitem__': BuiltinV('delitem', delete), 'require_group': BuiltinV('require_group', reqgroup)})
    return r
