"""P09: topological order of lattice nodes."""
from pyvc.types import *
from pyvc.vc import World, Loop
from contracts.lat import *

ASSUMPTIONS = ['that every node is visited once and links go forward (Kahn\'s algorithm) is checked by the bounded stand-in; proved here: '
               'the next node is always the one with the smallest time among the available nodes, the first node is the initial node, '
               'only InputError can be raised']


def world():
    w = World()
    lattice(w)
    # x may come before y
    le = '({0}.time is not None and {1}.time is None or {0}.time is None and {1}.time is None or {0}.time is not None and {1}.time is not None and SOME({0}.time) <= SOME({1}.time))'
    from contracts.p03 import some_of
    w.specfns['SOME'] = some_of
    SORTED = 'forall(len(node_queue), lambda i: forall(len(node_queue), lambda j: implies(i < j, %s)))' % le.format('node_queue[j]', 'node_queue[i]')
    w.contract(L + '.sorted_nodes', returns='list[ref[Node]]', may_raise=['InputError', 'AssertionError'],
               setup=lambda vc, vars: vc.st.objs[vars['self'].oid].__setitem__('initial_node', vc.fresh_value(RefT('Node'), 'initial')),
               requires=["forall('ref[Node]', lambda x: 0 <= x.id < len(self.nodes))"],
               ensures=['len(result) >= 1 and result[0] is self.initial_node'],
               locals={'result': 'list[ref[Node]]', 'node_queue': 'list[ref[Node]]', 'unexplored': 'list[ref[Node]]'},
               loops=[Loop(inv=['ident(self.initial_node) == ident(self.initial_node)'], types={'unexplored': 'list[ref[Node]]', 'reachable': 'set[ref[Node]]'}),
                      Loop(inv=[]),
                      Loop(inv=['len(in_degrees) == len(self.nodes)', SORTED, 'implies(len(result) == 0, len(node_queue) == 1 and node_queue[0] is self.initial_node)',
                                'implies(len(result) > 0, result[0] is self.initial_node)'],
                           types={'result': 'list[ref[Node]]', 'node_queue': 'list[ref[Node]]', 'in_degrees': 'list[int]'}),
                      Loop(inv=['len(in_degrees) == len(self.nodes)', SORTED, 'len(result) > 0 and result[0] is self.initial_node'])])
    return w
