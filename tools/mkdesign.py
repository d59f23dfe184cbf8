#!/usr/bin/env python3
# Rewrites the generated tables of DESIGN.md (harnesses with their bounds, planted changes) from the harness files and the given evidence directory.
import json, re, glob, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ev = sys.argv[1] if len(sys.argv) > 1 else root + '/evidence'
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
hs = {}
for f in sorted(glob.glob(root + '/harness/**/h_*.go', recursive=True)):
    doc = []
    for line in open(f):
        if line.startswith('//'):
            doc.append(line[2:].strip())
            continue
        m = re.match(r'func VerifH_(C\d+)_(\w+)\(\)', line)
        if m:
            hs.setdefault(m.group(1), []).append((m.group(2), os.path.dirname(os.path.relpath(f, root + '/harness')), doc))
        doc = []
out = []
for p in props:
    i = p['id']
    cost = ''
    try:
        e = json.load(open('%s/%s.json' % (ev, i)))
        cov = e.get('coverage', {})
        cost = ' (quick: %s s)' % round(e.get('wall_s', 0))
    except OSError:
        pass
    out.append('#### %s %s%s\n' % (i, p['title'], cost))
    for name, pkg, doc in hs.get(i, []):
        head = [d for d in doc if not re.match(r'(bound|outside|stub|limit|tier):', d)]
        head = ' '.join(head)
        head = re.sub(r'^C\d+: ', '', head)
        b = [d[6:].strip() for d in doc if d.startswith('bound:')]
        o = [d[8:].strip() for d in doc if d.startswith('outside:')]
        t = ' *(thorough only)*' if any(d.startswith('tier: thorough') for d in doc) else ''
        out.append('- `%s.%s`%s - %s%s%s' % (pkg, name, t, head, ' Bound: ' + '; '.join(b) + '.' if b else '', ' Outside: ' + '; '.join(o) + '.' if o else ''))
    out.append('')
seeds = ['| change | property | needs | breaks |', '|---|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    seeds.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'], m['what_it_breaks']))
s = open(root + '/DESIGN.md').read()
for tag, lines in (('harnesses', out), ('seeded', seeds)):
    s = re.sub(r'(<!-- %s -->\n).*?(<!-- end %s -->)' % (tag, tag), lambda m: m.group(1) + '\n'.join(lines) + '\n' + m.group(2), s, flags=re.S)
open(root + '/DESIGN.md', 'w').write(s)
