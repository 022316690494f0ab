"""Shared declarations: lattices, nodes and links."""
from pyvc.types import *

L = 'theanolm/scoring/lattice.py::Lattice'
S = 'theanolm/scoring/slflattice.py::'
SL = S + 'SLFLattice'
K = 'theanolm/scoring/kaldilattice.py::KaldiLattice'


def lattice(w, node_id='int', word='opt[str]'):
    w.heap_class('Node', L + '.Node', id=node_id, out_links='list[ref[Link]]', in_links='list[ref[Link]]', time='opt[real]',
                 best_logprob='opt[real]', final='bool')
    w.heap_class('Link', L + '.Link', start_node='ref[Node]', end_node='ref[Node]', word=word, ac_logprob='opt[real]',
                 lm_logprob='opt[real]', transitions='str')
    w.record('Lattice', L, nodes='list[ref[Node]]', links='list[ref[Link]]', initial_node='opt[ref[Node]]', utterance_id='opt[str]',
             lm_scale='opt[real]', wi_penalty='opt[real]')
    w.record('SLFLattice', SL, nodes='list[ref[Node]]', links='list[ref[Link]]', initial_node='opt[ref[Node]]', utterance_id='opt[str]',
             lm_scale='opt[real]', wi_penalty='opt[real]', _log_scale='opt[real]', _initial_node_id='opt[int]', _final_node_ids='list[int]',
             _num_nodes='opt[int]', _num_links='opt[int]')


# unchanged fields of every other node
OTHER = ("forall('int', lambda r: implies(r != ident({0}) and 0 <= r, LEN(r, '{1}') == old(LEN(r, '{1}'))))")
