"""P08: lattice readers."""
import z3
from pyvc.types import *
from pyvc.vc import World, Loop
from pyvc.builtinsmixin import _sf
from contracts.lat import *
from contracts.p03 import some_of

ASSUMPTIONS = []


def last_field(w, name, a, b):
    """name(fields, k): position of the last of the first k fields that is called a or b, or -1."""
    ty = ListT(STR)
    A = z3.ArraySort(z3.IntSort(), z3.IntSort())
    f = z3.Function(name, A, z3.IntSort(), z3.IntSort())
    split = _sf('split', z3.IntSort(), z3.IntSort(), z3.IntSort(), ty.sort)

    def unfold(t):
        arr, n = t.arg(0), t.arg(1)
        nm = z3.Select(ty.arr(split(z3.Select(arr, n - 1), strcode('='), z3.IntVal(1))), 0)
        prev = f(arr, z3.simplify(n - 1))
        return [z3.Implies(n <= 0, t == -1), z3.Implies(n > 0, t == z3.If(z3.Or(nm == strcode(a), nm == strcode(b)), n - 1, prev)), t < n if False else t >= -1]
    w.recfns[name] = unfold

    def spec(vc, args, k):
        c = vc.content(args[0])
        return T(INT, f(ty.arr(vc.pack(args[0], ty)), vc.intt(args[1])))
    w.specfns[name] = spec


def world():
    w = World()
    lattice(w)
    w.specfns['SOME'] = some_of
    w.contract(L + '.Node.__init__', params={'node_id': 'int'},
               ensures=['self.id == node_id', 'len(self.out_links) == 0 and len(self.in_links) == 0', 'self.time is None and self.best_logprob is None', 'not self.final'])
    w.contract(L + '.Link.__init__', params={'start_node': 'ref[Node]', 'end_node': 'ref[Node]', 'word': 'opt[str]', 'ac_logprob': 'opt[real]',
                                             'lm_logprob': 'opt[real]', 'transitions': 'str'},
               ensures=['self.start_node is start_node and self.end_node is end_node', 'self.word == word', 'self.ac_logprob == ac_logprob and self.lm_logprob == lm_logprob',
                        'self.transitions == transitions'])
    FR = ("forall(len(old({0}.{1})), lambda i: {0}.{1}[i] is old({0}.{1})[i])")
    w.contract(L + '._add_link', params={'start_node': 'ref[Node]', 'end_node': 'ref[Node]'}, returns='ref[Link]',
               modifies=['self.links', 'start_node.out_links', 'end_node.in_links'], alloc=True,
               ensures=['result.start_node is start_node and result.end_node is end_node',
                        'result.word is None and result.ac_logprob is None and result.lm_logprob is None'] + [
                        x for o, f in (('self', 'links'), ('start_node', 'out_links'), ('end_node', 'in_links')) for x in
                        ('len({0}.{1}) == old(len({0}.{1})) + 1 and {0}.{1}[len({0}.{1}) - 1] is result'.format(o, f), FR.format(o, f))])
    w.contract(SL + '._find_node', params={'node_id': 'int'}, returns='ref[Node]', raises={'InputError': 'node_id < 0 or node_id >= len(self.nodes)'},
               ensures=['result is self.nodes[node_id]'])
    w.contract(S + '_split_slf_field', params={'field': 'str'}, returns='tup[str,str]', raises={'InputError': 'len(field.split("=", 1)) != 2'},
               ensures=['result[0] == field.split("=", 1)[0] and result[1] == field.split("=", 1)[1]'])
    for a, b in (('START', 'S'), ('END', 'E'), ('WORD', 'W'), ('acoustic', 'a'), ('language', 'l'), ('time', 't')):
        last_field(w, 'LAST_' + b, a, b)
    VL = lambda f, n: 'fields[LAST_%s(fields, %s)].split("=", 1)[1]' % (f, n)

    def last(n, f, var, val):
        # var is None iff no field of this name so far, else the value of the last one
        return ['iff({0} is None, LAST_{1}(fields, {2}) < 0)'.format(var, f, n), 'LAST_%s(fields, %s) < %s' % (f, n, n),
                'implies({0} is not None, SOME({0}) == {1})'.format(var, val.format(VL(f, n)))]
    for scale in ('log', 'linear'):
        sc = '(float({0}) * self._log_scale)' if scale == 'log' else 'LOG(float({0}))'
        fs = (('S', 'start_node', 'self.nodes[int({0})]'), ('E', 'end_node', 'self.nodes[int({0})]'), ('W', 'word', '{0}'), ('a', 'ac_logprob', sc), ('l', 'lm_logprob', sc))
        LK = 'self.links[old(len(self.links))]'
        N = 'len(fields)'
        post = ['%s.%s is self.nodes[int(%s)]' % (LK, v, VL(f, N)) for f, v in (('S', 'start_node'), ('E', 'end_node'))]
        post += [x for f, v, e in fs[3:] for x in last(N, f, LK + '.' + v, e)]
        WV = VL('W', N)
        post.append('iff({0}.word is None, LAST_W(fields, {1}) < 0 or {2}.startswith("!") or {2}.startswith("#"))'.format(LK, N, WV))
        post.append('implies({0}.word is not None, SOME({0}.word) == {1})'.format(LK, WV))
        setup = lambda vc, vars, v=scale: vc.st.objs[vars['self'].oid].__setitem__('_log_scale', None if v == 'linear' else vc.fresh_value(REAL, 'log_scale'))
        w.contract(SL + '._read_slf_link', variant=scale, params={'link_id': 'int', 'fields': 'list[str]'}, setup=setup,
                   modifies=['self.links', 'Node.out_links', 'Node.in_links'], may_raise=['InputError', 'ValueError'],
                   ensures=['len(self.links) == old(len(self.links)) + 1'] + post,
                   loops=[Loop(inv=[x for f in fs for x in last('_k', *f)],
                               types={'start_node': 'opt[ref[Node]]', 'end_node': 'opt[ref[Node]]', 'word': 'opt[str]', 'ac_logprob': 'opt[real]', 'lm_logprob': 'opt[real]'})])
    return w
