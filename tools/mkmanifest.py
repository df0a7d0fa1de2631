"""Regenerates MANIFEST.json from properties.jsonl and the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf.registry import PROPS, NOTES, NA
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick python3-vt check.py ' + i,
                           thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + i,
                           technique=p.get('technique', 'contract-based deductive verification: contracts on the real functions (compiled from /repo on every run), VC generation over their LLVM IR, every obligation discharged by z3/cvc5/ring normalisation; counterexamples replayed natively'),
                           level=p.get('level', 'proof'), level_note=NOTES.get(i, '')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check yet')))
m = dict(version=1, setup_cmd='python3-vt check.py --setup', checks=checks, not_applicable=na,
         notes='hooks: none needed in /repo. Own verifier in vf/ and tools/irdump.cpp; contracts in harness/.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
