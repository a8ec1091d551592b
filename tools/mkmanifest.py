"""Writes /verif/MANIFEST.json from the contract files present and the property list."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
have = set(os.path.basename(f)[:3].upper() for f in glob.glob(V + '/contracts/c[0-9][0-9]_*.py'))
NA = {}
NOTES = {}
exec(open(V + '/tools/notes.py').read()) if os.path.exists(V + '/tools/notes.py') else None
checks = []
na = []
for p in props:
    i = p['id']
    if i in have:
        checks.append(dict(property=i, quick_cmd='./run %s' % i, thorough_cmd='./run %s --tier thorough' % i,
            technique='contract-based deductive verification of the real functions: contracts executed symbolically on the current source, obligations discharged by an exact polynomial prover, z3 and cvc5; failures replayed on the real code',
            level=NOTES.get(i, {}).get('level', 'proof'),
            level_note=NOTES.get(i, {}).get('note', 'real arithmetic in place of floating point; see evidence for trusted contracts and bounded clauses')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no contract has been written for this property yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
