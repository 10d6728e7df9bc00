#!/opt/veriftools/pyvenv/bin/python
"""writes MANIFEST.json from vf/props.py"""
import os, sys, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import props
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in ids:
    if p not in props.PROPS:
        continue
    cfg = props.PROPS[p]
    r = props.roots(p)
    if r:
        note = ('Deductive: the contracts of %d functions decide the property and are discharged for all inputs from the LLVM IR clang produces from /repo on every run; '
                'callees are used through their contracts, which are discharged too. Assumed: the contracts of FLINT/GMP functions (vf/lib.py), clang, the verifier, z3/cvc5. %s'
                'A replay program searches for failing inputs in parallel (bounded, never counted as proved).' % (len(r), (cfg['note'] + ' ') if cfg.get('note') else ''))
        tech = 'contract-based deductive verification of the LLVM IR of the real code (weakest-precondition style obligations, z3/cvc5), concrete replay for failing inputs'
        level = 'proof'
    else:
        note = 'Bounded stand-in: concrete cases against an exact oracle (FLINT qqbar / fmpq_poly / reference implementation), built from /repo on every run. ' + cfg.get('note', '')
        tech = 'bounded contract check: postconditions evaluated on concrete executions of the real code'
        level = 'exploration'
    checks.append(dict(property=p, quick_cmd='python3-vt run.py ' + p, thorough_cmd='python3-vt run.py %s --thorough' % p, technique=tech, level=level, level_note=note))
na = [dict(property=p, reason=props.NOT_APPLICABLE[p]) for p in ids if p not in props.PROPS]
m = dict(version=1, setup_cmd='python3-vt tools/selfcheck.py', checks=checks, not_applicable=na,
         notes='The verifier is in vf/, contracts in vf/contracts_*.py, assumed FLINT contracts in vf/lib.py, replay programs in harness/. No hooks in /repo; the commits there are fix: commits only.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
