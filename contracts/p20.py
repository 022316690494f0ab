"""P20: stopping criteria."""
import z3
from pyvc.types import *
from pyvc.vc import World, BuiltinV

F = 'theanolm/training/stoppers.py::'


def world():
    w = World()
    # The trainer as the stoppers see it; candidate_cost() is the contract of
    # Trainer.candidate_cost (proved under P19): it returns the current cost.
    def cost(vc, rec_vals):
        pass
    w.record('Trainer', epoch_number='int', _cost='opt[real]')
    tr = w.records['Trainer']
    w.records['Trainer'].attrs['candidate_cost'] = lambda vc: BuiltinV('candidate_cost', lambda vc, a, k: _cost(vc))
    w.record('BasicStopper', F + 'BasicStopper', trainer=tr, max_epochs='int')
    w.record('NoImprovementStopper', F + 'NoImprovementStopper', trainer=tr, max_epochs='int', min_epochs='int',
             _candidate_cost='opt[real]', _has_improved='bool')
    w.record('AnnealingCountStopper', F + 'AnnealingCountStopper', trainer=tr, max_epochs='int', min_epochs='int',
             _annealing_left='int')

    def _cost(vc):
        for oid, attrs in vc.st.objs.items():
            if '_cost' in attrs: return attrs['_cost']
        raise Unsupported('no trainer')
    PAST = 'self.trainer.epoch_number > self.min_epochs'
    # --- mini-batch decisions
    w.contract(F + 'BasicStopper.start_new_minibatch', returns='bool', ensures=['result == True'])
    w.contract(F + 'AnnealingCountStopper.start_new_minibatch', returns='bool',
               ensures=['iff(result, not (%s) or self._annealing_left >= 0)' % PAST])
    better = '(self.trainer._cost is not None and (self._candidate_cost is None or self.trainer._cost < self._candidate_cost))'
    w.contract(F + 'NoImprovementStopper.start_new_minibatch', returns='bool', modifies=['self._has_improved'],
               ensures=['iff(result, old(not (%s) or self._has_improved or %s))' % (PAST, better),
                        'self._has_improved == old(self._has_improved or (%s and %s))' % (PAST, better),
                        'self._candidate_cost == old(self._candidate_cost)',
                        'self.min_epochs == old(self.min_epochs) and self.max_epochs == old(self.max_epochs)'])
    # --- epoch decisions
    w.contract(F + 'BasicStopper.start_new_epoch', returns='bool',
               ensures=['iff(result, self.trainer.epoch_number <= self.max_epochs)'],
               opts={})
    for cls, cont in (('NoImprovementStopper', 'old(not (%s) or self._has_improved or %s)' % (PAST, better)),
                      ('AnnealingCountStopper', '(not (%s) or self._annealing_left >= 0)' % PAST)):
        w.contract(F + 'BasicStopper.start_new_epoch', variant=cls, opts={'self_rec': cls}, returns='bool',
                   ensures=['iff(result, self.trainer.epoch_number <= self.max_epochs and %s)' % cont])
    # --- construction
    from pyvc.evalmixin import PyDict
    for crit, cls, ens in (
            ('epoch-count', 'BasicStopper', []),
            ('no-improvement', 'NoImprovementStopper',
             ['result._has_improved == True', 'result._candidate_cost is None', 'result.min_epochs == _min']),
            ('annealing-count', 'AnnealingCountStopper',
             ['result._annealing_left == _ann', 'result.min_epochs == _min'])):
        def opts(vc, crit=crit):
            return vc.new_cell(PyDict({'stopping_criterion': crit, 'max_epochs': T(INT, z3.Int('g_max')),
                                       'min_epochs': T(INT, z3.Int('g_min')), 'max_annealing_count': T(INT, z3.Int('g_ann'))}))
        def setup(vc, vars):
            pass
        w.contract(F + 'create_stopper', variant=crit,
                   params={'training_options': opts, 'args': lambda vc: (vc.new_record(vc.world.records['Trainer'], 'trainer'),),
                           'kwargs': lambda vc: vc.new_cell(PyDict({})), '_min': 'int', '_ann': 'int', '_max': 'int'},
                   requires=['_min == training_options["min_epochs"]', '_ann == training_options["max_annealing_count"]',
                             '_max == training_options["max_epochs"]'],
                   ensures=['isinstance(result, %s)' % cls, 'result.max_epochs == _max', 'same(result.trainer, args[0])'] + ens)
    # --- learning rate decreases
    w.contract(F + 'BasicStopper.improvement_ceased', ensures=['self.max_epochs == old(self.max_epochs)'])
    w.contract(F + 'AnnealingCountStopper.improvement_ceased', modifies=['self._annealing_left'],
               ensures=['self._annealing_left == old(self._annealing_left) - 1',
                        'self.min_epochs == old(self.min_epochs) and self.max_epochs == old(self.max_epochs)'])
    w.contract(F + 'NoImprovementStopper.improvement_ceased', modifies=['self._annealing_left'],
               ensures=['self._has_improved == old(self.trainer._cost is not None and (self._candidate_cost is None or self.trainer._cost < self._candidate_cost))',
                        'self._candidate_cost == old(self._candidate_cost if self.trainer._cost is None else self.trainer._cost)'])
    return w


FUNCS = None
