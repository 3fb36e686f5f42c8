#!/usr/bin/env python3
"""Fills DESIGN.md from design/DESIGN.in, properties.jsonl, known-findings.json and seeded/*/meta.json."""
import json, os, glob, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/bin')
import props
m = json.load(open(V + '/design/methods.json'))
kf = json.load(open(V + '/known-findings.json'))
s = open(V + '/design/DESIGN.in').read()
o = ''
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    o += '\n### %s  %s\n\n%s\n\n' % (i, p['title'], p['statement'])
    if i in props.PROPS:
        P = props.PROPS[i]; b = P['bounds']
        b = b if isinstance(b, str) else b('quick')
        tq, tt = len(P['tasks']('quick')), len(P['tasks']('thorough'))
        o += '*How:* %s\n*Bounds (quick):* %s.\n*Outside:* %s.\n*Tasks:* %d quick, %d thorough.\n' % (m.get(i, ''), b, P.get('outside', ''), tq, tt)
s = s.replace('@PROPS@', o)
s = s.replace('@FIXED@', ''.join('* %s\n' % re.sub(r'^fixed: property=(\S+) (\S+) ', r'\1 `\2` ', f) for f in kf['fixed']))
s = s.replace('@KF@', ''.join('* **%s** (%s): %s\n' % (f['id'], ', '.join(f['properties']), f['what']) for f in kf['findings']))
t = '\n| id | property | needs | caught by |\n|---|---|---|---|\n'
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(d)); t += '| %s | %s | %s; breaks: %s | %s |\n' % (os.path.basename(os.path.dirname(d)), j['property'], j['needs'], j['what_it_breaks'], j.get('caught_by', ''))
s = s.replace('@SEEDED@', t)
open(V + '/DESIGN.md', 'w').write(s)
