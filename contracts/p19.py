"""P19: candidates and roll-back."""
import z3
from pyvc.types import *
from pyvc.vc import World, Loop, BuiltinV, PathDead, Rec
from pyvc.evalmixin import PyDict
from contracts import h5
from contracts.p03 import some_of

T_ = 'theanolm/training/trainer.py::Trainer'
ASSUMPTIONS = h5.ASSUMPTIONS + ['the states that network, iterator and optimizer save and restore are opaque values (their exactness is P21 and P07); the optimizer state includes the learning rate',
                                'a state has the groups trainer, network, iterator and optimizer and one attribute; group.copy copies a group with its attributes, resize keeps nothing in particular',
                                'whether an update is scheduled is the function of update number, frequency and distance that P18 determines: due within k updates implies due within more',
                                'the scorer returns an arbitrary real number and changes nothing else; printing and logging have no effect']


def new_state(vc, name='state', empty=False):
    """An HDF5 state: contents of its four groups."""
    r = vc.new_record(RecT('State', {}), name)
    A = vc.st.objs[r.oid]
    get = lambda n: vc.st.objs[r.oid][n]
    put = lambda n, v: vc.st.objs[r.oid].__setitem__(n, v)
    for n, t in (('NET', 'opt[int]'), ('ITER', 'opt[int]'), ('OPT', 'opt[int]'), ('LR', 'real'), ('EPOCH', 'opt[int]'), ('UPDATE', 'opt[int]'), ('HIST', 'opt[vec[real]]'), ('ATTR', 'opt[int]')):
        A[n] = None if empty and t[:3] == 'opt' else vc.fresh_value(vc.world.ty(t), n)
    A['HAS'] = T(BOOL, z3.BoolVal(False)) if empty else vc.fresh_value(BOOL, 'HAS')
    if not empty:
        for n in ('EPOCH', 'UPDATE', 'HIST'): vc.assume(z3.Or(A['HAS'].t, vc.eq(A[n], None)))
    A['filename'] = T(STR, vc.fresh('filename', STR.sort))
    fields = {'epoch_number': 'EPOCH', 'update_number': 'UPDATE'}
    parts = {'network': ('NET',), 'iterator': ('ITER',), 'optimizer': ('OPT', 'LR'), 'trainer': ('EPOCH', 'UPDATE', 'HIST', 'HAS')}

    def need(v, what):
        v = vc.split(v)
        if v is None:
            vc.require(False, 'KeyError', what)
            raise PathDead()
        return v

    def trainer_group():
        ar = h5.new_obj(vc, 'TA', {'__contains__': BuiltinV('in', lambda vc, a, k: vc.mkbool(vc.neg(vc.eq(get(fields[a[0]]), None)))),
                                   '__getitem__': BuiltinV('get', lambda vc, a, k: need(get(fields[a[0]]), a[0])),
                                   '__setitem__': BuiltinV('set', lambda vc, a, k: put(fields[a[0]], a[1]))})

        def create(vc, a, k):
            if a[0] != 'cost_history': raise Unsupported('dataset')
            vc.require(vc.eq(get('HIST'), None), 'ValueError', 'dataset does not exist')
            put('HIST', vc.new_cell(vc.as_nd(k['data'])))

        def has(vc, a, k):
            if a[0] != 'cost_history': raise Unsupported('dataset')
            return vc.mkbool(vc.neg(vc.eq(get('HIST'), None)))
        return h5.new_obj(vc, 'TG', {'attrs': ar, '__contains__': BuiltinV('in', has), '__getitem__': BuiltinV('get', lambda vc, a, k: dataset()), 'create_dataset': BuiltinV('create', create)})

    def dataset():
        d = need(get('HIST'), 'cost_history')

        def resize(vc, a, k):
            n = vc.content(a[0])[0]
            v = vc.fresh_value(vc.world.ty('vec[real]'), 'resized')
            vc.assume(vc.content(v).shape[0] == vc.intt(n))
            put('HIST', v)

        def setall(vc, a, k):
            cur, new = vc.as_nd(vc.split(get('HIST'))), vc.as_nd(a[1])
            if not (hasattr(a[0], 'lo') or 'SliceV' in type(a[0]).__name__): raise Unsupported('partial write')
            vc.require(cur.shape[0] == new.shape[0], 'TypeError', 'shape of the dataset')
            put('HIST', vc.new_cell(new))
        return h5.new_obj(vc, 'DS', {'value': d, 'resize': BuiltinV('resize', resize), '__setitem__': BuiltinV('set', setall), '__getitem__': BuiltinV('get', lambda vc, a, k: d)})

    def has(vc, a, k):
        if a[0] == 'trainer': return get('HAS')
        return vc.mkbool(vc.neg(vc.eq(get(parts[a[0]][0]), None)))

    def item(vc, a, k):
        if a[0] == 'trainer/cost_history': return dataset()
        if a[0] == 'trainer':
            vc.require(vc.truth(get('HAS')), 'KeyError', 'group trainer')
            g = trainer_group()
            vc.st.objs[g.oid].update(SRC=r, PART='trainer')
            return g
        return h5.new_obj(vc, 'GR', {'SRC': r, 'PART': a[0]})

    def require_group(vc, a, k):
        if a[0] != 'trainer': raise Unsupported('group')
        put('HAS', T(BOOL, z3.BoolVal(True)))
        return trainer_group()

    def delete(vc, a, k):
        for n in parts[a[0]]: put(n, T(BOOL, z3.BoolVal(False)) if n == 'HAS' else get(n) if n == 'LR' else None)

    def copy(vc, a, k):
        g = vc.st.objs[a[0].oid]
        src, part = g['SRC'], g['PART']
        if part != a[1]: raise Unsupported('copy to another name')
        vc.require(z3.Not(vc.truth(vc.call(vc.st.objs[r.oid]['__contains__'], [part], {}))), 'ValueError', 'the group does not exist')
        for n in parts[part]: put(n, vc.freeze(vc.st.objs[src.oid][n]))
    at = h5.new_obj(vc, 'AT', {'__iter__': BuiltinV('iter', lambda vc, a, k: ('attribute',)), '__getitem__': BuiltinV('get', lambda vc, a, k: get('ATTR')),
                               '__setitem__': BuiltinV('set', lambda vc, a, k: put('ATTR', a[1]))})
    A.update({'__contains__': BuiltinV('in', has), '__getitem__': BuiltinV('get', item), '__delitem__': BuiltinV('del', delete), 'require_group': BuiltinV('require_group', require_group),
              'copy': BuiltinV('copy', copy), '__iter__': BuiltinV('iter', lambda vc, a, k: ('trainer', 'network', 'iterator', 'optimizer')), 'attrs': at,
              'flush': BuiltinV('flush', lambda vc, a, k: None), 'close': BuiltinV('close', lambda vc, a, k: None)})
    return r


def part(vc, name, field, lr=False):
    """Something that saves and restores its state."""
    r = vc.new_record(RecT('Part', {}), name)
    A = vc.st.objs[r.oid]
    A['S'] = T(INT, vc.fresh(name, z3.IntSort()))
    if lr: A['learning_rate'] = T(REAL, vc.fresh('lr', z3.RealSort()))
    at = lambda o: vc.st.objs[o.oid]

    def save(vc, a, k):
        at(a[0])[field] = at(r)['S']
        if lr: at(a[0])['LR'] = at(r)['learning_rate']

    def restore(vc, a, k):
        v = vc.split(at(a[0])[field])
        if v is None:
            vc.require(False, 'IncompatibleStateError', 'state of the %s' % name)
            raise PathDead()
        at(r)['S'] = v
        if lr: at(r)['learning_rate'] = at(a[0])['LR']
    A['get_state'], A['set_state'] = BuiltinV('get_state', save), BuiltinV('set_state', restore)
    return r


STATES = ('_candidate_state', '_validation_state')
PARTS = 'self._network.S', 'self._training_iter.S', 'self._optimizer.S'
SAVED = ('{s}.NET == self._network.S and {s}.ITER == self._training_iter.S and {s}.OPT == self._optimizer.S and {s}.LR == self._optimizer.learning_rate and '
         '{s}.EPOCH == self.epoch_number and {s}.UPDATE == self.update_number and {s}.HAS')


def world():
    w = World()
    w.specfns['SOME'] = some_of
    for n in ('State', 'Part', 'Stopper', 'Scorer'): w.record(n)
    w.records['State'].attrs.update({n: w.ty(t) for n, t in (('NET', 'opt[int]'), ('ITER', 'opt[int]'), ('OPT', 'opt[int]'), ('LR', 'real'), ('EPOCH', 'opt[int]'), ('UPDATE', 'opt[int]'), ('HIST', 'opt[vec[real]]'), ('ATTR', 'opt[int]'), ('HAS', 'bool'))})
    w.record('Trainer', T_, epoch_number='int', update_number='int', _updates_per_epoch='int', _cost_history='vec[real]', _candidate_index='opt[int]', _local_perplexities='list[real]',
             _samples_per_validation='int')
    sched = z3.Function('SCHED', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
    w.specfns['SCHED'] = lambda vc, a, k: T(BOOL, sched(*[vc.intt(x) for x in a]))

    def append(vc, a, k):
        c = vc.as_nd(a[0])
        n, x = c.shape[0], vc.real(vc.split(a[1]))
        v = vc.fresh_value(vc.world.ty('vec[real]'), 'appended')
        q = vc.content(v)
        i = z3.Int('i!ap')
        vc.assume(z3.And(q.shape[0] == n + 1, q.at(n) == x, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), q.at(i) == c.at(i)))))
        return v
    w.externals['numpy.append'] = append
    w.externals['h5py.File'] = lambda vc, a, k: new_state(vc, 'new_state', empty=True)
    w.externals['sys.stdout.flush'] = lambda vc, a, k: None

    def setup(validation, center=True):
        def f(vc, vars):
            o = vc.st.objs[vars['self'].oid]
            o['_network'], o['_training_iter'], o['_optimizer'] = part(vc, 'network', 'NET'), part(vc, 'iterator', 'ITER'), part(vc, 'optimizer', 'OPT', True)
            o['_candidate_state'] = new_state(vc, 'candidate')
            o['_validation_state'] = new_state(vc, 'validation') if center else None
            o['_validation_iter'] = T(OPAQUE, vc.fresh('validation_iter', z3.IntSort())) if validation else None
            o['_options'] = vc.new_cell(PyDict({'validation_frequency': T(INT, vc.fresh('frequency', z3.IntSort())), 'patience': T(INT, vc.fresh('patience', z3.IntSort()))}))
            s = vc.new_record(RecT('Stopper', {}), 'stopper')
            vc.st.objs[s.oid]['ceased'] = T(INT, vc.fresh('ceased', z3.IntSort()))
            vc.st.objs[s.oid]['improvement_ceased'] = BuiltinV('improvement_ceased', lambda vc, a, k: vc.st.objs[s.oid].__setitem__('ceased', T(INT, vc.intt(vc.st.objs[s.oid]['ceased']) + 1)))
            o['_stopper'] = s
            c = vc.new_record(RecT('Scorer', {}), 'scorer')
            p = T(REAL, vc.fresh('perplexity', z3.RealSort()))
            vc.st.objs[c.oid]['P'] = p
            vc.st.objs[c.oid]['compute_perplexity'] = BuiltinV('compute_perplexity', lambda vc, a, k: p)
            o['_scorer'] = c
        return f
    IDX = 'self._candidate_index'
    INV = ['%s is None or 0 <= %s < len(self._cost_history)' % (IDX, IDX)]
    HC = 'self._cost_history[SOME(%s)]' % IDX
    w.contract(T_ + '._is_scheduled', assume_only=True, params={'frequency': 'int', 'within': 'int'}, returns='bool', ensures=['iff(result, SCHED(self.update_number, frequency, within))'])
    w.contract(T_ + '._log_validation', assume_only=True)
    w.contract(T_ + '.num_validations', returns='int', ensures=['result == len(self._cost_history)'])
    w.contract(T_ + '.validations_since_candidate', returns='int', requires=[IDX + ' is not None'], raises={'RuntimeError': 'len(self._cost_history) == 0'},
               ensures=['result == len(self._cost_history) - 1 - SOME(%s)' % IDX])
    w.contract(T_ + '.candidate_cost', returns='opt[real]', requires=INV, ensures=['iff(result is None, %s is None)' % IDX, 'result is None or result == ' + HC])
    better = lambda c, h: '({i} is None or {c} < 0.999 * {h})'.format(i=IDX, c=c, h=h)
    w.contract(T_ + '._has_improved', returns='bool', requires=INV, raises={'RuntimeError': 'len(self._cost_history) == 0'},
               ensures=['iff(result, %s)' % better('self._cost_history[len(self._cost_history) - 1]', HC)])
    S = setup(True)
    w.contract(T_ + '.get_state', setup=S, params={'state': lambda vc: new_state(vc, 'target')}, modifies=['state.' + x for x in ('NET', 'ITER', 'OPT', 'LR', 'EPOCH', 'UPDATE', 'HIST', 'HAS')],
               ensures=[SAVED.format(s='state'), 'state.HIST is not None and eqt(SOME(state.HIST), self._cost_history)', 'state.ATTR == old(state.ATTR)'])
    C = 'self._candidate_state'
    bad = '{c}.NET is None or not {c}.HAS or {c}.EPOCH is None or {c}.UPDATE is None or {c}.ITER is None or {c}.OPT is None'.format(c=C)
    frameC = ' and '.join('{c}.{f} == old({c}.{f})'.format(c=C, f=f) for f in ('NET', 'ITER', 'OPT', 'LR', 'EPOCH', 'UPDATE', 'HAS')) + ' and eqt({c}.HIST, old({c}.HIST))'.format(c=C)
    MOD = list(PARTS) + ['self._optimizer.learning_rate', 'self.epoch_number', 'self.update_number', 'self._cost_history', IDX]
    w.contract(T_ + '._reset_state', setup=S, modifies=MOD, raises={'IncompatibleStateError': bad}, requires=['self._updates_per_epoch >= 1'],
               ensures=[SAVED.format(s=C), 'len(self._cost_history) == (len(SOME({c}.HIST)) if {c}.HIST is not None else 0)'.format(c=C),
                        '{c}.HIST is None or forall(len(self._cost_history), lambda i: self._cost_history[i] == SOME({c}.HIST)[i])'.format(c=C),
                        'iff({i} is None, len(self._cost_history) == 0)'.format(i=IDX), '{i} is None or {i} == len(self._cost_history) - 1'.format(i=IDX)])
    w.contract(T_ + '._decrease_learning_rate', setup=S, modifies=MOD + ['self._stopper.ceased'], raises={'IncompatibleStateError': bad}, requires=['self._updates_per_epoch >= 1'],
               ensures=[SAVED.format(s=C).replace('{c}.LR == self._optimizer.learning_rate and '.format(c=C), ''), 'self._optimizer.learning_rate == old(self._optimizer.learning_rate) / 2',
                        'self._stopper.ceased == old(self._stopper.ceased) + 1', 'len(self._cost_history) == (len(SOME({c}.HIST)) if {c}.HIST is not None else 0)'.format(c=C),
                        '{c}.HIST is None or forall(len(self._cost_history), lambda i: self._cost_history[i] == SOME({c}.HIST)[i])'.format(c=C),
                        'iff({i} is None, len(self._cost_history) == 0)'.format(i=IDX), '{i} is None or {i} == len(self._cost_history) - 1'.format(i=IDX)])
    CM = [C + '.' + x for x in ('NET', 'ITER', 'OPT', 'LR', 'EPOCH', 'UPDATE', 'HIST', 'HAS', 'ATTR')] + [IDX]
    idx = 'iff({i} is None, len(self._cost_history) == 0) and ({i} is None or {i} == len(self._cost_history) - 1)'.format(i=IDX)
    w.contract(T_ + '._set_candidate_state', variant='current', setup=S, params={'state': lambda vc: None}, modifies=CM,
               ensures=[SAVED.format(s=C), '{c}.HIST is not None and eqt(SOME({c}.HIST), self._cost_history)'.format(c=C), idx])
    w.contract(T_ + '._set_candidate_state', variant='given', setup=S, params={'state': lambda vc: new_state(vc, 'given')}, modifies=CM,
               requires=['state.NET is not None and state.ITER is not None and state.OPT is not None and state.HAS'],
               ensures=['{c}.{f} == state.{f}'.format(c=C, f=f) for f in ('NET', 'ITER', 'OPT', 'LR', 'EPOCH', 'UPDATE', 'ATTR')] + ['eqt({c}.HIST, state.HIST)'.format(c=C), C + '.HAS', idx])
    # the validation
    U, F, N = 'old(self.update_number)', 'self._options["validation_frequency"]', 'self._samples_per_validation'
    A, B, D = ('SCHED(%s, %s, %s)' % (U, F, x) for x in (N + ' - 1', N + ' // 2', '0'))
    P = 'self._scorer.P'
    V = 'self._validation_state'
    keep = lambda *x: ' and '.join('{0} == old({0})'.format(y) for y in x)
    same = [keep(*PARTS), keep('self._optimizer.learning_rate', 'self.epoch_number', 'self.update_number', 'self._stopper.ceased'), 'eqt(self._cost_history, old(self._cost_history))', keep(IDX), frameC]
    full = 'len(old(self._local_perplexities)) + 1 >= ' + N
    for val in (False, True):
        for cen in ((False, True) if val else (False,)):
            if not val:
                w.contract(T_ + '._validate', variant='not configured', setup=setup(False, False), ensures=same + ['eqt(self._local_perplexities, old(self._local_perplexities))', V + ' is None'])
                continue
            oldh, oldi = 'old(self._cost_history)', 'old(self._candidate_index)'
            M = 'self.MED'
            # the median of all samples (see the obligations of the call), and the state at the centre
            med_ = 'self.MED'
            imp = '({i} is None or {m} < 0.999 * {h}[SOME({i})])'.format(i=oldi, m=med_, h=oldh)
            roll = '({pat} >= 0 and len({h}) - SOME({i}) > {pat})'.format(pat='self._options["patience"]', h=oldh, i=oldi)
            src = lambda f, cur: 'old(%s.%s)' % (V, f) if cen else 'old(%s)' % cur
            centre = ' and '.join('%s.%s == %s' % (C, f, src(f, cur)) for f, cur in (('NET', PARTS[0]), ('ITER', PARTS[1]), ('OPT', PARTS[2]), ('LR', 'self._optimizer.learning_rate'), ('EPOCH', 'self.epoch_number'), ('UPDATE', 'self.update_number')))
            hist = lambda h: 'len({x}) == len({o}) + 1 and {x}[len({o})] == {m} and forall(len({o}), lambda i: {x}[i] == {o}[i])'.format(x=h, o=oldh, m=med_)
            curkept = keep(*PARTS) + ' and ' + keep('self._optimizer.learning_rate', 'self.epoch_number', 'self.update_number', 'self._stopper.ceased')
            longer = 'len(self._local_perplexities) == len(old(self._local_perplexities)) + 1 and self._local_perplexities[len(self._local_perplexities) - 1] == {p} and forall(len(old(self._local_perplexities)), lambda i: self._local_perplexities[i] == old(self._local_perplexities)[i])'.format(p=P)
            rolled = SAVED.format(s=C).replace('{c}.LR == self._optimizer.learning_rate and '.format(c=C), '') + ' and self._optimizer.learning_rate == old(self._optimizer.learning_rate) / 2 and self._stopper.ceased == old(self._stopper.ceased) + 1'
            def vsetup(vc, vars, cen=cen):
                setup(True, cen)(vc, vars)
                o = vc.st.objs[vars['self'].oid]
                before, p = vc.freeze(o['_local_perplexities']), vc.st.objs[o['_scorer'].oid]['P']
                o['MED'] = T(REAL, vc.fresh('median', z3.RealSort()))

                def median(vc, a, k):
                    for t in ('len(_got) == len(_before) + 1', 'len(_got) != len(_before) + 1 or _got[len(_before)] == _p', 'forall(min(len(_before), len(_got)), lambda i: _got[i] == _before[i])'):
                        vc.oblige('the statistic is taken of all samples: ' + t, vc.spec(t, {'_got': a[0], '_before': before, '_p': p}))
                    return o['MED']
                o['_statistic_function'] = BuiltinV('median', median)
            vs = V + '.NET is not None and {v}.ITER is not None and {v}.OPT is not None and {v}.HAS and {v}.HIST is not None'.format(v=V)
            w.contract(T_ + '._validate', variant='centre passed' if cen else 'centre not passed', setup=vsetup, opts={'cost': 9},
                       requires=INV + ['self._updates_per_epoch >= 1', N + ' >= 1'] +
                       # due now implies due within any number of updates
                       ['not SCHED(self.update_number, {f}, 0) or SCHED(self.update_number, {f}, {n} // 2)'.format(f=F, n=N), 'not SCHED(self.update_number, {f}, {n} // 2) or SCHED(self.update_number, {f}, {n} - 1)'.format(f=F, n=N)] +
                       # the candidate state can be restored once there is a candidate
                       ['{i} is None or ({c}.NET is not None and {c}.HAS and {c}.EPOCH is not None and {c}.UPDATE is not None and {c}.ITER is not None and {c}.OPT is not None)'.format(i=IDX, c=C)] + ([vs] if cen else []),
                       ensures=
                       # no samples, or one more sample, or the centre
                       ['%s or (%s)' % (A, x) for x in same + ['eqt(self._local_perplexities, old(self._local_perplexities))']] +
                       ['not {a} or {d} or ({x})'.format(a=A, d=D, x=x) for x in same + [longer]] +
                       # a validation with too few samples is ignored
                       ['not {d} or len(self._local_perplexities) == 0'.format(d=D)] +
                       ['not {d} or {f} or ({x})'.format(d=D, f=full, x=x) for x in same] +
                       # otherwise the median is recorded, and the state at the centre becomes the candidate if it is an improvement
                       ['not {d} or not ({f}) or not {imp} or ({x})'.format(d=D, f=full, imp=imp, x=x) for x in
                        [hist('self._cost_history'), C + '.HIST is not None and ' + hist('SOME(%s.HIST)' % C), centre, IDX + ' == len(self._cost_history) - 1', curkept]] +
                       ['not {d} or not ({f}) or {imp} or {roll} or ({x})'.format(d=D, f=full, imp=imp, roll=roll, x=x) for x in [hist('self._cost_history'), curkept, frameC, keep(IDX)]] +
                       # or network, iterator, optimizer and counters go back to the candidate
                       ['not {d} or not ({f}) or {imp} or not {roll} or ({x})'.format(d=D, f=full, imp=imp, roll=roll, x=x) for x in [rolled, frameC]])
    w.select[T_ + '._set_candidate_state'] = lambda vc, a, k: 'given' if len(a) > 1 and isinstance(a[1], Rec) else 'current'
    return w
