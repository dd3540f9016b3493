#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from the table of claimed properties."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/dv')
import props
T = 'contract-based deductive verification of the real code (LLVM IR of /repo, function contracts, loop invariants, SMT)'
NOTE = {
 'C01': 'All update/result/step contracts discharged for every state and every n, no bound. Trusts clang front end, /verif/dv engine, z3.',
 'C10': 'Injectivity lemmas over the constructors for all pairs of seeds/keys.',
 'C12': 'Erasure postconditions for every pending count and every state; copies left on the stack are outside the property.',
 'C13': 'Memory-safety, initialisation, overflow, shift, null and overlap obligations for every function reached, all inputs.',
 'C14': 'Every function in the constant-evaluation configuration against the run-time build; lengths of detail::memcpy/memset up to 128 (the largest block) under contract.',
 'C15': 'Units re-discharged on IR for powerpc64 (big endian) and i386; thorough adds powerpc.',
}
NA = json.load(open(HERE + '/tools/na.json')) if os.path.exists(HERE + '/tools/na.json') else {}
ids = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
checks = []
na = []
for i in ids:
    if i in props.PROPS:
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i, technique=getattr(props, 'TECH', {}).get(i, T), level='proof',
                           level_note=getattr(props, 'NOTE', {}).get(i) or NOTE.get(i, 'Every obligation of the listed contracts discharged for all inputs; trusts the clang front end, the engine in /verif/dv and the SMT solver.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
d = dict(version=1, setup_cmd='python3-vt tools/selftest.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo. The commits in /repo are unguarded fixes of genuine defects, listed in KNOWN_FINDINGS.jsonl.')
json.dump(d, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
