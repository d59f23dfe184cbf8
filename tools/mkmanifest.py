#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl, the harness files and tools/notes.json.
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
notes = json.load(open(root + '/tools/notes.json'))
have = set()
for f in glob.glob(root + '/harness/**/h_*.go', recursive=True):
    for m in re.finditer(r'func VerifH_(C\d+)_', open(f).read()):
        have.add(m.group(1))
checks, na = [], []
for p in props:
    i = p['id']
    n = notes.get(i, {})
    if i in have and not n.get('not_applicable'):
        checks.append({
            'property': i,
            'quick_cmd': './check.sh %s quick' % i,
            'thorough_cmd': './check.sh %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'symbolic execution of the Go code (go/ssa) with SMT (z3/cvc5) deciding branches and assertions',
            'level': 'model_checking',
            'level_note': n.get('note', 'Bounded: holds for every value within the bounds listed in the evidence file; environment models are listed there too.'),
        })
    else:
        na.append({'property': i, 'reason': n.get('not_applicable', 'check not built yet')})
m = {'version': 1, 'setup_cmd': './check.sh setup', 'hooks': {'guard': 'none (harnesses enter through build overlays; /repo carries no hooks)', 'enable': 'go build -overlay (see check.sh)', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'One check per property: check.sh builds the symbolic executor in engine/ and runs the harnesses VerifH_<id>_* of harness/ against /repo.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
