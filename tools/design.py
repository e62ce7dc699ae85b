#!/usr/bin/env python3
"""Assemble DESIGN.md from notes/design/*.md, the evidence of the last run and the seeds."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = V + '/notes/design/'
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
man = json.load(open(V + '/MANIFEST.json'))
na = {x['property']: x['reason'] for x in man['not_applicable']}
fnd = json.load(open(V + '/known_findings.json'))['findings']
checks = {c['property']: c for c in man['checks']} if 'checks' in man else {}
out = [open(D + '00head.md').read().rstrip(), '']
for p in props:
    i = p['id']
    out.append('### %s %s' % (i, p['title'])); out.append('')
    if i in na:
        out += ['Not claimed: ' + na[i], '']; continue
    c = checks.get(i, {})
    out.append('*Technique:* ' + c.get('technique', '?') + '.'); out.append('')
    f = D + i + '.md'
    if os.path.exists(f): out.append(open(f).read().rstrip()); out.append('')
    e = V + '/evidence/%s.json' % i
    if os.path.exists(e):
        cov = json.load(open(e))['coverage']
        out.append('Rules (obligations found on the unchanged tree):'); out.append('')
        for r, v in cov['rules'].items():
            out.append('- **%s** (%d): %s' % (r, v['obligations'], v['text']))
        out.append('')
    fs = [x for x in fnd if x['property'] == i]
    if fs:
        out.append('Defects found:'); out.append('')
        for x in fs:
            n = x['note']
            if x['status'] == 'fixed': n = n.split(' ', 3)[3] if n.startswith('fixed:') else n
            out.append('- %s%s: %s' % (x['status'], ' (%s)' % x['commit'] if x.get('commit') else '', n))
        out.append('')
out += ['## Planted bugs (seeded/) and the checks that report them', '', '| seed | breaks | needs | reported by |', '|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(m)); s = os.path.basename(os.path.dirname(m))
    out.append('| %s | %s | %s | %s |' % (s, j['what_it_breaks'].replace('|', '/'), j['needs'].replace('|', '/'), j.get('caught_by', j['property'])))
out.append('')
if os.path.exists(D + '99tail.md'): out.append(open(D + '99tail.md').read().rstrip()); out.append('')
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
