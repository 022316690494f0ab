"""P18: the validation schedule."""
import z3
from pyvc.types import *
from pyvc.vc import World

F = 'theanolm/training/trainer.py::'


def world():
    w = World()
    w.record('Trainer', F + 'Trainer', update_number='int', _updates_per_epoch='int')
    # V(u) = floor(u * f / n) is the number of validations due in the first u
    # updates; _a = V(u - 1), _b = V(u + within), _q = V(u).
    w.contract(F + 'Trainer._is_scheduled',
               params={'frequency': 'int', 'within': 'int', '_a': 'int', '_b': 'int', '_q': 'int'},
               lemmas=[x.format(n='self._updates_per_epoch', d='(self.update_number * frequency // self._updates_per_epoch)') for x in (
                   # multiplication by n >= 1 is monotonic
                   '{d} <= _q or _q * {n} + {n} <= {d} * {n}', '{d} >= _q or {d} * {n} + {n} <= _q * {n}', '{d} == _q',
                   '_a <= _q or _q * {n} + {n} <= _a * {n}', '_a >= _q or _a * {n} + {n} <= _q * {n}', '_a >= _q - 1 or _a * {n} + {n} + {n} <= _q * {n}',
                   '_b <= _q or _q * {n} + {n} <= _b * {n}', '_b >= _q or _b * {n} + {n} <= _q * {n}')],
               requires=['self._updates_per_epoch >= 1', '1 <= frequency <= self._updates_per_epoch', 'within >= 0',
                         'self.update_number >= 1',
                         '_q * self._updates_per_epoch <= self.update_number * frequency < _q * self._updates_per_epoch + self._updates_per_epoch',
                         '_a * self._updates_per_epoch <= (self.update_number - 1) * frequency < _a * self._updates_per_epoch + self._updates_per_epoch',
                         '_b * self._updates_per_epoch <= (self.update_number + within) * frequency < _b * self._updates_per_epoch + self._updates_per_epoch'],
               ensures=['iff(result, _b > _a)'],
               returns='bool')
    # V is defined by V*n <= u*f < V*n + n.  V(0) = 0, V(n) = f, steps are 0 or 1,
    # so exactly f updates of the epoch are scheduled and the last one is.
    n, f, u, a, b, i = z3.Ints('n f u a b i')
    pre = [n >= 1, f >= 1, f <= n, u >= 1, u <= n]
    V = lambda x, uu: z3.And(x * n <= uu * f, uu * f < x * n + n)
    w.lemma('nothing is due before the first update', a == 0, pre + [V(a, z3.IntVal(0))])
    w.lemma('f validations are due in n updates', a == f, pre + [V(a, n)])
    w.lemma('at most one validation becomes due per update', z3.And(b - a >= 0, b - a <= 1), pre + [V(a, u - 1), V(b, u)])
    w.lemma('the i-th is the first update with at least i*n/f updates',
            z3.And(u * f >= b * n, (u - 1) * f < b * n), pre + [V(a, u - 1), V(b, u), b == a + 1])
    return w
