#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand when a property gains contracts)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = {}
for l in open(os.path.join(HERE, 'levels.jsonl')):
    if l.strip():
        d = json.loads(l)
        NOTE[d['property']] = d
checks = []
for i in range(1, 18):
    pid = 'C%02d' % i
    proof = os.path.exists(os.path.join(HERE, 'vc/props/%s.py' % pid.lower()))
    n = NOTE.get(pid, {})
    checks.append({
        'property': pid,
        'quick_cmd': 'python3-vt check.py %s quick' % pid,
        'thorough_cmd': 'python3-vt check.py %s thorough' % pid,
        'technique': n.get('technique') or ('contract-based deductive verification of the LLVM IR of the real functions (own verification-condition generator, Z3)' if proof else 'bounded stand-in for the contracts (executable specification checked on the real code)'),
        'level': 'proof' if proof else 'exploration',
        'level_note': n.get('note') or ('obligations discharged for all inputs; see DESIGN.md for the trusted library contracts' if proof else 'bounded: executable specification compared with the real code on generated cases under AddressSanitizer/UBSan; not a proof'),
    })
na = [
 ('C18', 'Lisp code of both databases is the subject; there is no Lisp system and no deductive verifier for Common Lisp in this sandbox, and a hand translation would be a model, not the code'),
 ('C19', 'the packing and unpacking is Common Lisp macro/CFFI code; no Lisp system or verifier for it is available here'),
 ('C20', 'a statement about a source-to-source transformation written in Common Lisp over arbitrary C programs (needs a verified C semantics and a Lisp verifier); outside the reach of function contracts here'),
]
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, cvc5" && clang++ --version',
           'checks': checks, 'not_applicable': [{'property': a, 'reason': b} for a, b in na],
           'notes': 'No hooks in /repo: the checks compile the working tree as it is. See DESIGN.md.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
