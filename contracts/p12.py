"""P12: recombination and pruning of tokens."""
import z3
from pyvc.types import *
from pyvc.vc import World, Loop
from contracts.lat import lattice
from contracts.p03 import some_of

F = 'theanolm/scoring/latticedecoder.py::'
D = F + 'LatticeDecoder.'
ASSUMPTIONS = ['hash() of tuples of words is injective: two tokens have the same recombination hash exactly when the words they are computed from are equal (Python hashes may collide)',
               'log probabilities are real numbers; tokens reaching recombination have a total log probability']
HIST = 'htup[union[int,str]]'
REC = 'list[tup[ref[Token],%s,real]]' % HIST


def V_int(x): return z3.IntVal(x) if isinstance(x, int) else x


def setup(vc, v, beam, limit):
    """fixes which options are None"""
    for on, f, ty in ((beam[0] == 'b', '_beam', REAL), (limit, '_max_tokens_per_node', INT)):
        vc.st.objs[v['self'].oid][f] = vc.fresh_value(ty, f) if on else None


def world():
    w = World()
    lattice(w)
    w.specfns['SOME'] = some_of
    w.heap_class('Token', F + 'LatticeDecoder.Token', history=HIST, state='opaque', ac_logprob='real', lat_lm_logprob='real',
                 nn_lm_logprob='real', recombination_hash='int', graph_logprob='real', total_logprob='real')

    def hash_of(vc, a, k):
        """An integer that is equal for two tuples exactly when they have the same words."""
        c = vc.lift(a[0])
        h = vc.fresh('hash', z3.IntSort())
        i = z3.Int('i!hash')
        for c2, h2 in vc.__dict__.setdefault('hashes', []):
            n, m = V_int(c.n), V_int(c2.n)
            vc.assume((h == h2) == z3.And(n == m, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), c.at(i) == c2.at(i)))))
        vc.hashes.append((c, h))
        return T(INT, h)
    w.externals['hash'] = hash_of
    w.specfns['HASH'] = hash_of
    w.record('LatticeDecoder', F + 'LatticeDecoder', _beam='opt[real]', _max_tokens_per_node='opt[int]', _recombination_order='opt[int]',
             _prune_extra_limit='opt[real]', _abs_min_beam='real', _abs_min_max_tokens='real')
    for o in (False, True):
        w.contract(F + 'LatticeDecoder.Token.recompute_hash', variant='order' if o else 'all', params={'recombination_order': 'int' if o else (lambda vc: None)},
                   requires=['len(self.history) >= 0'] + (['recombination_order >= 0'] if o else []),
                   modifies=['self.recombination_hash'],
                   ensures=['self.recombination_hash == HASH(%s)' % ('self.history[max(len(self.history) - recombination_order, 0):]' if o else 'self.history'),
                            'self.history == old(self.history)'])
    KEPT = 'exists({0}, lambda j: same({0}[j], {1}))'
    w.contract(D + '_sorted_recombined_tokens', params={'tokens': 'list[ref[Token]]', 'recomb_tokens': REC}, returns='list[ref[Token]]',
               modifies=['recomb_tokens'],
               locals={'result': 'list[ref[Token]]', 'token_map': 'dict[int,ref[Token]]'},
               ensures=['len(result) + len(recomb_tokens) == len(tokens) + old(len(recomb_tokens))',
                        'implies(len(tokens) > 0, len(result) > 0)',
                        'forall(result, lambda i: forall(i, lambda j: result[j].total_logprob >= result[i].total_logprob))',
                        'forall(result, lambda i: forall(i, lambda j: result[j].recombination_hash != result[i].recombination_hash))',
                        'forall(result, lambda i: exists(tokens, lambda j: same(tokens[j], result[i])))',
                        'forall(tokens, lambda i: exists(result, lambda j: result[j].recombination_hash == tokens[i].recombination_hash and '
                        'result[j].total_logprob >= tokens[i].total_logprob))',
                        'forall(tokens, lambda i: exists(result, lambda j: same(result[j], tokens[i])) or '
                        'exists(old(len(recomb_tokens)), len(recomb_tokens), lambda j: same(recomb_tokens[j][0], tokens[i])))',
                        'len(recomb_tokens) >= old(len(recomb_tokens))',
                        'forall(old(len(recomb_tokens)), lambda i: recomb_tokens[i] == old(recomb_tokens)[i])',
                        'forall(old(len(recomb_tokens)), len(recomb_tokens), lambda i: exists(result, lambda j: '
                        'result[j].recombination_hash == recomb_tokens[i][0].recombination_hash and recomb_tokens[i][1] == result[j].history and '
                        'recomb_tokens[i][2] == result[j].nn_lm_logprob))',
                        'forall(old(len(recomb_tokens)), len(recomb_tokens), lambda i: exists(tokens, lambda j: same(recomb_tokens[i][0], tokens[j])))',
                        'eqt(tokens, old(tokens))'],
               loops=[Loop(types={'kept_token': 'ref[Token]', 'key': 'int', 'token': 'ref[Token]'},
                           inv=['forall(tokens, lambda i: exists(sorted_tokens, lambda j: same(sorted_tokens[j], tokens[i])))',
                                'len(result) + len(recomb_tokens) == _k + old(len(recomb_tokens))',
                                'len(recomb_tokens) >= old(len(recomb_tokens))',
                                'forall(old(len(recomb_tokens)), lambda i: recomb_tokens[i] == old(recomb_tokens)[i])',
                                'implies(_k > 0, len(result) > 0)',
                                'forall(result, lambda i: forall(i, lambda j: result[j].total_logprob >= result[i].total_logprob))',
                                'forall(result, lambda i: forall(_k, len(sorted_tokens), lambda j: result[i].total_logprob >= sorted_tokens[j].total_logprob))',
                                'forall(result, lambda i: forall(i, lambda j: result[j].recombination_hash != result[i].recombination_hash))',
                                'forall(result, lambda i: result[i].recombination_hash in token_map and same(token_map[result[i].recombination_hash], result[i]))',
                                "forall('int', lambda h: implies(h in token_map, token_map[h].recombination_hash == h))",
                                "forall('int', lambda h: implies(h in token_map, exists(result, lambda j: same(result[j], token_map[h]))))",
                                "forall('int', lambda h: implies(h in token_map, forall(_k, len(sorted_tokens), lambda j: token_map[h].total_logprob >= sorted_tokens[j].total_logprob)))",
                                'forall(_k, lambda i: sorted_tokens[i].recombination_hash in token_map and '
                                'token_map[sorted_tokens[i].recombination_hash].total_logprob >= sorted_tokens[i].total_logprob)',
                                'forall(result, lambda i: exists(_k, lambda j: same(sorted_tokens[j], result[i])))',
                                'forall(_k, lambda i: same(token_map[sorted_tokens[i].recombination_hash], sorted_tokens[i]) or '
                                'exists(old(len(recomb_tokens)), len(recomb_tokens), lambda j: same(recomb_tokens[j][0], sorted_tokens[i])))',
                                'forall(old(len(recomb_tokens)), len(recomb_tokens), lambda i: exists(_k, lambda j: same(recomb_tokens[i][0], sorted_tokens[j])))',
                                'forall(old(len(recomb_tokens)), len(recomb_tokens), lambda i: recomb_tokens[i][0].recombination_hash in token_map and '
                                'recomb_tokens[i][1] == token_map[recomb_tokens[i][0].recombination_hash].history and '
                                'recomb_tokens[i][2] == token_map[recomb_tokens[i][0].recombination_hash].nn_lm_logprob)'])])
    FIRST = ('(sorted_nodes[p].id == node.id if node.time is None else sorted_nodes[p].time is not None and SOME(sorted_nodes[p].time) >= SOME(node.time))')
    DIV = '(1 if self._prune_extra_limit is None else max(1, len(sorted_nodes) // SOME(self._prune_extra_limit) + 1))'
    BEAM = 'max(self._beam / DIV, self._abs_min_beam)'
    LIMIT = 'max(1, int(max(self._max_tokens_per_node // DIV, self._abs_min_max_tokens)))'
    for beam in ('no beam', 'beam, time', 'beam, no time'):
        for limit in (False, True):
            OLD, NEW = 'old(tokens)[node.id]', 'tokens[node.id]'
            why = ['exists({n}, lambda j: {n}[j].recombination_hash == {o}[i].recombination_hash and {n}[j].total_logprob >= {o}[i].total_logprob)']
            if beam[0] == 'b':
                why.append('exists(sorted_nodes, lambda p: %s and exists(p, len(sorted_nodes), lambda m: sorted_nodes[m].best_logprob is not None and '
                           '{o}[i].total_logprob <= SOME(sorted_nodes[m].best_logprob) - BEAM))' % FIRST)
            if limit:
                why.append('len({n}) == LIMIT and forall({n}, lambda j: {n}[j].total_logprob >= {o}[i].total_logprob)')
            w.contract(D + '_prune', variant='%s%s' % (beam, ', limit' if limit else ''),
                       params={'node': 'ref[Node]', 'sorted_nodes': 'list[ref[Node]]', 'tokens': 'list[list[ref[Token]]]', 'recomb_tokens': REC},
                       requires=['0 <= node.id < len(tokens)', 'len(tokens[node.id]) > 0', 'self._prune_extra_limit is None or SOME(self._prune_extra_limit) > 0',
                                 'exists(sorted_nodes, lambda i: same(sorted_nodes[i], node))', 'node.best_logprob is not None'] +
                       ([] if beam[0] == 'n' else ['node.time is not None' if beam == 'beam, time' else 'node.time is None']),
                       modifies=['tokens', 'recomb_tokens'], opts={'pydicts': True},
                       setup=lambda vc, v, beam=beam, limit=limit: setup(vc, v, beam, limit),
                       loops=[Loop(types={'time_begin': 'int', 'iter_node': 'ref[Node]'},
                                   inv=['implies(_k > 0, time_begin == _k - 1)',
                                        'forall(_k, lambda p: not (sorted_nodes[p].time is not None and SOME(sorted_nodes[p].time) >= SOME(node.time)))']),
                              Loop(inv=['1 <= keep_tokens <= len(new_tokens)',
                                        'forall(keep_tokens, len(new_tokens), lambda i: new_tokens[i].total_logprob <= threshold)'])] if beam[0] == 'b' else [],
                       ensures=[x.format(n=NEW, o=OLD).replace('BEAM', BEAM).replace('LIMIT', LIMIT).replace('DIV', DIV) for x in [
                           'len({n}) > 0',
                           'forall({n}, lambda i: forall(i, lambda j: {n}[j].total_logprob >= {n}[i].total_logprob))',
                           'forall({n}, lambda i: forall(i, lambda j: {n}[j].recombination_hash != {n}[i].recombination_hash))',
                           'forall({n}, lambda i: exists({o}, lambda j: same({o}[j], {n}[i])))',
                           'forall({o}, lambda j: {n}[0].total_logprob >= {o}[j].total_logprob)',
                           'forall(tokens, lambda i: implies(i != node.id, eqt(tokens[i], old(tokens)[i])))',
                           'len(tokens) == len(old(tokens))',
                           'forall({o}, lambda i: %s)' % ' or '.join(why),
                           'len(recomb_tokens) >= len(old(recomb_tokens))',
                           'forall(old(len(recomb_tokens)), lambda i: recomb_tokens[i] == old(recomb_tokens)[i])',
                       ] + (['len({n}) <= LIMIT'] if limit else [])])
    return w
