"""P14: writing lattices (frame conditions; the readers are in P08)."""
import z3
from pyvc.types import *
from pyvc.vc import World, Loop, BuiltinV
from contracts import p08
from contracts.lat import *

ASSUMPTIONS = ['the text written and its parsing (str.format, shlex, float) are outside the verifier; the round trip is checked by the bounded stand-in',
               'file.write appends to the output and has no other effect']


def out(vc):
    vc.world.records.setdefault('Out', RecT('Out', {}))
    r = vc.new_record(RecT('Out', {}), 'out')
    vc.st.objs[r.oid]['n'] = 0

    def write(vc, a, k):
        vc.st.objs[r.oid]['n'] = T(INT, vc.intt(vc.st.objs[r.oid]['n']) + 1)
    vc.st.objs[r.oid]['write'] = BuiltinV('write', write)
    return r


def world():
    w = World()
    lattice(w)
    SAME = ["forall('ref[Link]', lambda l: l.start_node is old(l.start_node) and l.end_node is old(l.end_node))",
            "forall('ref[Link]', lambda l: l.word == old(l.word) and l.ac_logprob == old(l.ac_logprob) and l.lm_logprob == old(l.lm_logprob))",
            "forall('ref[Node]', lambda x: x.id == old(x.id) and x.time == old(x.time) and len(x.out_links) == old(len(x.out_links)))",
            'len(self.links) == old(len(self.links)) and len(self.nodes) == old(len(self.nodes))',
            'forall(len(self.links), lambda i: self.links[i] is old(self.links)[i])', 'forall(len(self.nodes), lambda i: self.nodes[i] is old(self.nodes)[i])',
            'self.utterance_id == old(self.utterance_id) and self.lm_scale == old(self.lm_scale) and self.wi_penalty == old(self.wi_penalty)']
    ini = lambda vc, vars: vc.st.objs[vars['self'].oid].__setitem__('initial_node', vc.fresh_value(RefT('Node'), 'initial'))
    w.contract(L + '.write_slf', params={'output_file': out}, setup=ini, ensures=SAME, loops=[Loop(inv=[], types={'fields': 'list[str]'}), Loop(inv=[], types={'fields': 'list[str]'})])
    w2 = World()
    lattice(w2)
    # a Kaldi lattice has both scores on every link
    w2.heap_class('Link', L + '.Link', start_node='ref[Node]', end_node='ref[Node]', word='opt[str]', ac_logprob='real', lm_logprob='real', transitions='str')
    w2.contract(L + '.write_kaldi', params={'output_file': out, 'word_to_id': 'dict[str,int]'}, setup=ini, may_raise=['KeyError'],
               ensures=SAME, loops=[Loop(inv=[]), Loop(inv=[])])
    return [w, w2]
