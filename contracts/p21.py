"""P21: saving and restoring parameters, optimizer and architecture."""
import z3
from pyvc.types import *
from pyvc.vc import World, Loop, BuiltinV, Rec, PathDead, PyRaise, ELLIPSIS
from contracts.p03 import some_of
from contracts.h5 import new_obj, attributes

P = 'theanolm/backend/parameters.py::Parameters'
O = 'theanolm/training/basicoptimizer.py::BasicOptimizer'
ASSUMPTIONS = ['h5py: a file maps paths to arrays; dataset[...] = x replaces the content and fails when the shapes differ, create_dataset fails when the '
               'path exists, `in` tests existence, .value returns a copy of the content',
               'Theano shared variables: set_value stores a copy of the value, get_value returns a copy',
               'arrays are immutable values here: every copy made by h5py and Theano is the same value']


def values(w):
    w.heap_class('Value', None, shape='htup[int]', size='int', dtype='str')
    w.heap_class('Shared', None, value='ref[Value]', device='opt[str]')
    w.ref_methods['Shared', 'get_value'] = lambda vc, o, a, k: vc.getattr_(o, 'value')

    def set_value(vc, o, a, k):
        vc.setattr_(o, 'value', a[0])
    w.ref_methods['Shared', 'set_value'] = set_value

    def shared(vc, a, k):
        if set(k) - {'target'} or len(a) != 2: raise Unsupported('theano.shared')
        if 'target' in k and vc.choose([None, None]) == 1: raise PyRaise('TypeError')
        r = T(RefT('Shared'), vc.st.alloc)
        vc.st.alloc = vc.st.alloc + 1
        vc.setattr_(r, 'value', a[0])
        vc.setattr_(r, 'device', k.get('target'))
        return r
    w.externals['theano.shared'] = shared
    w.externals['theano.config.device'] = T(STR, z3.Int('theano!device'))
    w.record('Parameters', P, _vars='dict[str,ref[Shared]]', total_size='int')


def state(vc, groups=None):
    """The HDF5 file: `data` maps the path of a dataset to its content."""
    s = new_obj(vc, 'State', {'data': vc.fresh_value(vc.world.ty('dict[str,ref[Value]]'), 'data')})
    A = vc.st.objs[s.oid]
    groups = groups or {}

    def data(): return vc.st.objs[s.oid]['data']

    def contains(vc, a, k):
        if isinstance(a[0], str) and a[0] in groups: return vc.mkbool(groups[a[0]][1])
        return vc.mkbool(vc.contains(data(), a[0]))

    def getitem(vc, a, k):
        if isinstance(a[0], str) and a[0] in groups:
            vc.require(groups[a[0]][1], 'KeyError', 'group ' + a[0])
            return groups[a[0]][0]
        path = a[0]
        vc.require(vc.contains(data(), path), 'KeyError', 'dataset')

        def write(vc, b, k):
            if b[0] is not ELLIPSIS: raise Unsupported('slice of a dataset')
            old = vc.getitem(data(), path)
            vc.require(vc.eq(vc.getattr_(old, 'shape'), vc.getattr_(b[1], 'shape')), 'TypeError', 'shape of the dataset')
            vc.setitem(data(), path, b[1])
        return new_obj(vc, 'Dataset', {'value': vc.getitem(data(), path), '__setitem__': BuiltinV('write', write)})

    def create(vc, a, k):
        if set(k) != {'data'}: raise Unsupported('create_dataset')
        vc.require(vc.neg(vc.contains(data(), a[0])), 'RuntimeError', 'dataset does not exist')
        vc.setitem(data(), a[0], k['data'])

    def reqgroup(vc, a, k):
        if a[0] not in groups: raise Unsupported('group')
        return groups[a[0]][0]
    A.update({'__contains__': BuiltinV('contains', contains), '__getitem__': BuiltinV('getitem', getitem), 'create_dataset': BuiltinV('create_dataset', create),
              'require_group': BuiltinV('require_group', reqgroup)})
    return s


DISTINCT = 'forall(len({v}), lambda i: forall(i, lambda j: not same({v}[keyat({v}, i)], {v}[keyat({v}, j)])))'


def parameters(w):
    values(w)
    V, S = 'self._vars', 'state.data'
    fits = "forall(len(self._vars), lambda i: implies(keyat(self._vars, i) in state.data, state.data[keyat(self._vars, i)].shape == self._vars[keyat(self._vars, i)].value.shape))"
    kept = "forall('str', lambda p: implies(p in old({S}), p in {S}))".format(S=S)
    others = "forall('str', lambda p: implies(not p in self._vars, iff(p in {S}, p in old({S})) and implies(p in old({S}), same({S}[p], old({S})[p]))))".format(S=S)
    w.contract(P + '.get_state', params={'state': state}, modifies=['state.data'], requires=[fits],
               ensures=["forall(len(self._vars), lambda i: keyat(self._vars, i) in state.data)",
                        "forall(len(self._vars), lambda i: same(state.data[keyat(self._vars, i)], self._vars[keyat(self._vars, i)].value))", others],
               loops=[Loop(inv=['forall(_k, lambda i: keyat(self._vars, i) in state.data)',
                                'forall(_k, lambda i: same(state.data[keyat(self._vars, i)], self._vars[keyat(self._vars, i)].value))',
                                'forall(_k, len(self._vars), lambda i: implies(keyat(self._vars, i) in state.data, state.data[keyat(self._vars, i)].shape == self._vars[keyat(self._vars, i)].value.shape))',
                                others])])
    untouched = ("forall('ref[Shared]', lambda s: implies(forall(len(self._vars), lambda i: not same(s, self._vars[keyat(self._vars, i)])), "
                 "same(s.value, old(s.value))))")
    w.contract(P + '.set_state', params={'state': state}, modifies=['Shared.value'], requires=[DISTINCT.format(v='self._vars')],
               raises={'IncompatibleStateError': 'exists(len(self._vars), lambda i: not keyat(self._vars, i) in state.data)'},
               ensures=['forall(len(self._vars), lambda i: same(self._vars[keyat(self._vars, i)].value, state.data[keyat(self._vars, i)]))', untouched],
               loops=[Loop(inv=['forall(_k, lambda i: keyat(self._vars, i) in state.data)',
                                'forall(_k, lambda i: same(self._vars[keyat(self._vars, i)].value, state.data[keyat(self._vars, i)]))', untouched])])
    for dev in (None, 'str'):
        w.contract(P + '.add', variant='device' if dev else 'no device', params={'path': 'str', 'value': 'ref[Value]', 'device': dev or (lambda vc: None)},
                   modifies=['self._vars', 'self.total_size'],
                   raises={'ValueError': 'path in self._vars'}, may_raise=['TheanoConfigurationError'] + (['RuntimeError'] if dev else []),
                   requires=[DISTINCT.format(v='self._vars')],
                   ensures=['path in self._vars', 'same(self._vars[path].value, value)', 'len(self._vars) == old(len(self._vars)) + 1',
                            "forall('str', lambda p: implies(p != path, iff(p in self._vars, p in old(self._vars)) and implies(p in old(self._vars), same(self._vars[p], old(self._vars)[p]))))",
                            'self.total_size == old(self.total_size) + value.size', DISTINCT.format(v='self._vars')])



A = 'theanolm/network/architecture.py::Architecture'
VAL = 'union[str,int,list[str]]'
TVAL = parse_type(VAL)


def groups(w):
    """Nested HDF5 groups with attributes."""
    w.heap_class('Group', None, attrs='dict[str,union[str,int]]', groups='dict[str,ref[Group]]')
    w.ref_content['Group'] = 'groups'
    at = parse_type('union[str,int]')

    def require_group(vc, o, a, k):
        g = vc.getattr_(o, 'groups')
        if not vc.branch(vc.contains(g, a[0])):
            r = T(RefT('Group'), vc.st.alloc)
            vc.st.alloc = vc.st.alloc + 1
            vc.setattr_(r, 'attrs', vc.new_cell(vc.empty_dict(DictT(STR, at))))
            vc.setattr_(r, 'groups', vc.new_cell(vc.empty_dict(DictT(STR, RefT('Group')))))
            vc.setitem(vc.getattr_(o, 'groups'), a[0], r)
        return vc.getitem(vc.getattr_(o, 'groups'), a[0])
    w.ref_methods['Group', 'require_group'] = require_group
    i = TVAL.alts.index(parse_type('list[str]'))
    def raw(vc, a, k):
        """The content of a field as a term."""
        t = z3.Select(vc.field_arr('Group', a[1]), a[0].t)
        return T(Scalar('raw ' + a[1], t.sort()), t)
    w.specfns['RAW'] = raw
    w.specfns['ISLIST'] = lambda vc, a, k: T(BOOL, TVAL.is_alt(vc.pack(a[0], TVAL), i))
    w.specfns['LISTOF'] = lambda vc, a, k: vc.unpack(TVAL.alts[i], TVAL.val(vc.pack(a[0], TVAL), i))


def match(g, d, v, old=True):
    """The value of the variable is stored: a list of facts. A list of devices may be missing if it is empty (old files)."""
    lst = 'ISLIST({d}[{v}])' + (" and not ({v} == 'devices' and not {v} in {g}.groups and not len(LISTOF({d}[{v}])) > 0)" if old else '')
    return [x.format(g=g, d=d, v=v) for x in (
        'implies(%s, {v} in {g}.groups)' % lst,
        'implies(%s, len({g}.groups[{v}].attrs) == len(LISTOF({d}[{v}])))' % lst,
        'implies(%s, forall(len(LISTOF({d}[{v}])), lambda j: {g}.groups[{v}].attrs[str(j)] == LISTOF({d}[{v}])[j]))' % lst,
        'implies(not ISLIST({d}[{v}]), {v} in {g}.attrs)',
        'implies(not ISLIST({d}[{v}]), {g}.attrs[{v}] == {d}[{v}])')]


def matching(g, d, old=True):
    """Every stored value belongs to a variable, and every variable has its value stored."""
    return ["forall('str', lambda p: implies(p in {g}.attrs or p in {g}.groups, p in {d}))".format(g=g, d=d)] + \
           ['forall(len({d}), lambda i: {m})'.format(d=d, m=m) for m in match(g, d, 'keyat(%s, i)' % d, old)]


def architecture(w):
    groups(w)
    w.contract(A + '._check_h5_dict', params={'h5_group': 'ref[Group]', 'variables': 'dict[str,%s]' % VAL},
               requires=["forall('str', lambda p: implies(p in h5_group.groups, forall(len(h5_group.groups[p].attrs), lambda j: str(j) in h5_group.groups[p].attrs)))"],
               raises={'IncompatibleStateError': ' or '.join('not (%s)' % x for x in matching('h5_group', 'variables'))},
               loops=[Loop(inv=['forall(len(h5_group.attrs), lambda i: implies(i < _k, keyat(h5_group.attrs, i) in variables))',
                                'forall(len(h5_group.groups), lambda i: implies(len(h5_group.attrs) + i < _k, keyat(h5_group.groups, i) in variables))']),
                      Loop(inv=['forall(_k, lambda i: %s)' % x for x in match('h5_group', 'variables', 'keyat(variables, i)')]),
                      Loop(inv=['forall(_k, lambda j: h5_values.attrs[str(j)] == LISTOF(variables[variable])[j])'])])


FRESHG = ["forall('str', lambda p: implies(p in {g}.groups, ident({g}.groups[p]) < alloc() and ident({g}.groups[p]) != ident({g})))",
          'forall(len({g}.groups), lambda a: forall(a, lambda b: not same({g}.groups[keyat({g}.groups, a)], {g}.groups[keyat({g}.groups, b)])))']
NEWG = "forall('str', lambda p: implies(p in {g}.groups, ident({g}.groups[p]) >= old(alloc())))"
SAMEG = "forall('ref[Group]', lambda r: implies(ident(r) < old(alloc()) and not same(r, {g}), eqt(RAW(r, 'attrs'), old(RAW(r, 'attrs'))) and eqt(RAW(r, 'groups'), old(RAW(r, 'groups')))))"


def write(w):
    G = dict(g='h5_group')
    V = 'keyat(variables, i)'
    OLDG = SAMEG.format(**G)
    new = [NEWG.format(**G)]
    w.contract(A + '._write_h5_dict', params={'h5_group': 'ref[Group]', 'variables': 'dict[str,%s]' % VAL}, alloc=True,
               requires=['len(h5_group.attrs) == 0 and len(h5_group.groups) == 0', "forall('str', lambda p: not p in h5_group.attrs and not p in h5_group.groups)", 'ident(h5_group) < alloc()'], modifies=['Group.attrs', 'Group.groups'],
               ensures=matching('h5_group', 'variables', False) + new + [x.format(**G) for x in FRESHG] + [OLDG],
               loops=[Loop(inv=['forall(_k, lambda i: %s)' % x for x in match('h5_group', 'variables', V, False)] +
                           ["forall('str', lambda p: implies(p in h5_group.attrs or p in h5_group.groups, p in variables and keypos(variables, p) < _k))"] +
                           [x.format(**G) for x in FRESHG] + new + [OLDG]),
                      Loop(inv=['len(h5_values.attrs) == _k', 'forall(_k, lambda j: str(j) in h5_values.attrs)', 'forall(_k, lambda j: h5_values.attrs[str(j)] == LISTOF(variables[variable])[j])',
                                'forall(_k, len(values), lambda j: not str(j) in h5_values.attrs)',
                                "forall('ref[Group]', lambda r: implies(not same(r, h5_values), eqt(RAW(r, 'attrs'), entry(RAW(r, 'attrs')))))"])])


AR = "state.groups['architecture']"
NUMBERED = ("forall(len({g}.groups), lambda e: str(e) in {g}.groups)",
            "forall(len({g}.groups), lambda e: forall('str', lambda p: implies(p in {g}.groups[str(e)].groups, "
            "forall(len({g}.groups[str(e)].groups[p].attrs), lambda j: str(j) in {g}.groups[str(e)].groups[p].attrs))))")


def stored(old=True):
    """The architecture is stored in the state."""
    r = ["'architecture' in state.groups"]
    for x in ('inputs', 'layers'):
        g = AR + ".groups['%s']" % x
        r += ["'%s' in %s.groups" % (x, AR), 'len(%s.groups) == len(self.%s)' % (g, x)]
        r += ['forall(len(self.%s), lambda e: %s)' % (x, m) for m in matching(g + '.groups[str(e)]', 'self.%s[e]' % x, old)]
    return r + ["'output_layer' in %s.attrs" % AR, "%s.attrs['output_layer'] == self.output_layer" % AR]


def check(w):
    w.record('Architecture', A, inputs='list[dict[str,%s]]' % VAL, layers='list[dict[str,%s]]' % VAL, output_layer='str')
    S = stored()
    loop = lambda x: Loop(inv=['forall(_k, lambda e: %s)' % m for m in matching(AR + ".groups['%s'].groups[str(e)]" % x, 'self.%s[e]' % x)])
    w.contract(A + '.check_state', params={'state': 'ref[Group]'},
               requires=[x.format(g=AR + ".groups['%s']" % y) for y in ('inputs', 'layers') for x in NUMBERED],
               raises={'IncompatibleStateError': ' or '.join('not (%s)' % x for x in S)}, loops=[loop('inputs'), loop('layers')], opts={'cost': 5})


def optimizer(w):
    def st(vc):
        rec, meth = attributes(vc, {'learning_rate': 'real'})
        vc.st.objs[rec.oid].update(meth)
        g = new_obj(vc, 'OptGroup', {'attrs': rec})
        has = z3.Bool('has!optimizer')
        s = state(vc, {'optimizer': (g, has)})
        vc.st.objs[s.oid].update({'opt': g, 'has_opt': T(BOOL, has)})
        return s
    w.record('BasicOptimizer', O, learning_rate='real', _params=w.records['Parameters'])
    par = lambda text: text.replace('self._vars', 'self._params._vars')
    K = 'keyat(self._params._vars, i)'
    w.contract(O + '.get_state', params={'state': st}, modifies=['state.data', 'state.opt.attrs.learning_rate'],
               requires=['forall(len(self._params._vars), lambda i: implies({k} in state.data, state.data[{k}].shape == self._params._vars[{k}].value.shape))'.format(k=K)],
               ensures=['state.opt.attrs.learning_rate == self.learning_rate', 'forall(len(self._params._vars), lambda i: %s in state.data)' % K,
                        'forall(len(self._params._vars), lambda i: same(state.data[{k}], self._params._vars[{k}].value))'.format(k=K)])
    w.contract(O + '.set_state', params={'state': st}, modifies=['self.learning_rate', 'Shared.value'], requires=[DISTINCT.format(v='self._params._vars')],
               raises={'IncompatibleStateError': 'not state.has_opt or state.opt.attrs.learning_rate is None or exists(len(self._params._vars), lambda i: not %s in state.data)' % K},
               ensures=['state.opt.attrs.learning_rate is not None and self.learning_rate == SOME(state.opt.attrs.learning_rate)',
                        'forall(len(self._params._vars), lambda i: same(self._params._vars[{k}].value, state.data[{k}]))'.format(k=K)])
    L, Bi = 'theanolm/network/basiclayer.py::BasicLayer', 'theanolm/network/bidirectionallayer.py::BidirectionalLayer'
    w.record('BasicLayer', L, _params=w.records['Parameters'])
    w.record('BidirectionalLayer', Bi, _forward_layer=w.records['BasicLayer'], _backward_layer=w.records['BasicLayer'])

    def saved(p):
        k = 'keyat(%s._vars, i)' % p
        return ['forall(len(%s._vars), lambda i: %s in state.data)' % (p, k), 'forall(len({p}._vars), lambda i: same(state.data[{k}], {p}._vars[{k}].value))'.format(p=p, k=k)]

    def fits(p):
        k = 'keyat(%s._vars, i)' % p
        return 'forall(len({p}._vars), lambda i: implies({k} in state.data, state.data[{k}].shape == {p}._vars[{k}].value.shape))'.format(p=p, k=k)

    def missing(p):
        return 'exists(len({p}._vars), lambda i: not keyat({p}._vars, i) in state.data)'.format(p=p)

    def restored(p):
        return 'forall(len({p}._vars), lambda i: same({p}._vars[{k}].value, state.data[{k}]))'.format(p=p, k='keyat(%s._vars, i)' % p)
    OTHERS = "forall('str', lambda p: implies({c}, iff(p in state.data, p in old(state.data)) and implies(p in old(state.data), same(state.data[p], old(state.data)[p]))))"
    UNTOUCHED = "forall('ref[Shared]', lambda s: implies({c}, same(s.value, old(s.value))))"
    f, b = 'self._forward_layer._params', 'self._backward_layer._params'
    NOT = 'forall(len({p}._vars), lambda i: not same(s, {p}._vars[keyat({p}._vars, i)]))'
    w.contract(L + '.get_state', params={'state': state}, modifies=['state.data'], requires=[fits('self._params')],
               ensures=saved('self._params') + [OTHERS.format(c='not p in self._params._vars')])
    w.contract(L + '.set_state', params={'state': state}, modifies=['Shared.value'], requires=[DISTINCT.format(v='self._params._vars')],
               raises={'IncompatibleStateError': missing('self._params')}, ensures=[restored('self._params'), UNTOUCHED.format(c=NOT.format(p='self._params'))])
    disjoint = "forall('str', lambda p: not (p in {f}._vars and p in {b}._vars))".format(f=f, b=b)
    apart = 'forall(len({f}._vars), lambda x: forall(len({b}._vars), lambda y: not same({f}._vars[keyat({f}._vars, x)], {b}._vars[keyat({b}._vars, y)])))'.format(f=f, b=b)
    w.contract(Bi + '.get_state', params={'state': state}, modifies=['state.data'], requires=[fits(f), fits(b), disjoint], ensures=saved(f) + saved(b))
    w.contract(Bi + '.set_state', params={'state': state}, modifies=['Shared.value'], requires=[DISTINCT.format(v=f + '._vars'), DISTINCT.format(v=b + '._vars'), apart],
               raises={'IncompatibleStateError': missing(f) + ' or ' + missing(b)}, ensures=[restored(f), restored(b)])


def world():
    w = World()
    w.specfns['SOME'] = some_of
    parameters(w)
    optimizer(w)
    architecture(w)
    write(w)
    check(w)
    return w
