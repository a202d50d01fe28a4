#!/usr/bin/env python3
# Writes DESIGN.md: hand-written text below, bounds from the harnesses, planted
# bugs from seeded/*/meta.json and tools/seedruns.txt (result of running the checks on them).
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
H = {}
for f in sorted(glob.glob(root + '/vxh/*.go') + glob.glob(root + '/wb/*.go')):
    s = open(f).read()
    for m in re.finditer(r'((?:^//.*\n)+)func (H_(C\d\d)_\w+)', s, re.M):
        c = m.group(1)
        b = re.search(r'//vx:bound (.*)', c)
        d = ' '.join(l[3:] for l in c.splitlines() if l.startswith('// '))
        d = re.sub(r'^H_\w+: ', '', d)
        H.setdefault(m.group(3), []).append((m.group(2), d, b.group(1) if b else '', 'tier=thorough' in c))
D = json.load(open(root + '/tools/design.json'))
o = []
o.append(open(root + '/tools/design_head.md').read().rstrip())
o.append('\n## The properties, one by one\n')
o.append('"Oracle" says against what the real code is judged; every harness is listed with its bounds (the same text is in the evidence file).\n')
for p in props:
    i = p['id']
    o.append('### %s — %s\n' % (i, p['title']))
    d = D[i]
    if i in H:
        o.append('*Oracle.* ' + d['oracle'] + '\n')
        o.append('*Beyond tests.* ' + d['why'] + '\n')
        for h, t, b, th in H[i]:
            o.append('- `%s`%s: %s *Bounds:* %s.' % (h, ' (thorough tier only)' if th else '', t, b.rstrip('.')))
        if d.get('limits'):
            o.append('\n*Outside.* ' + d['limits'])
        o.append('')
    else:
        o.append('Not applicable: ' + d['na'] + '\n')
o.append(open(root + '/tools/design_tail.md').read().rstrip())
o.append('\n## Planted bugs\n')
o.append('Each is in `seeded/<id>/`; every one compiles, passes the ten stable tests and is shown by its demo. "Caught" is the quick check of its property (exit 1 with a replayed counterexample).\n')
runs = {}
f = root + '/tools/seedruns.txt'
if os.path.exists(f):
    for l in open(f):
        w = l.split()
        if len(w) >= 2: runs[w[0]] = w[1:]
o.append('| id | property | needs | breaks | caught |\n|---|---|---|---|---|')
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    i = m.split('/')[-2]
    d = json.load(open(m))
    r = runs.get(i)
    o.append('| %s | %s | %s | %s | %s |' % (i, d['property'], d['needs'], d['what_it_breaks'], ' '.join(r) if r else 'not run'))
o.append('')
open(root + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
