#!/usr/bin/env python3
"""Refreshes the commit ids of the "fixed" entries of known-findings.json from /repo's log (by subject)."""
import json, subprocess, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {}
for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '): log[s[5:]] = h
d = json.load(open(V + '/known-findings.json'))
new = dict(a.split('=', 1)[::-1] for a in [])  # subject -> property
for a in sys.argv[1:]:  # PROP=subject prefix
    p, s = a.split('=', 1); new.update({t: p for t in log if t.startswith(s)})
r, seen = [], set()
for f in d['fixed']:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', f)
    if m.group(3) not in log: print('no commit for', f); continue
    r.append('fixed: property=%s %s %s' % (m.group(1), log[m.group(3)], m.group(3))); seen.add(m.group(3))
for s in reversed(list(log)):
    if s in seen: continue
    if s not in new: print('not listed:', s); continue
    r.append('fixed: property=%s %s %s' % (new[s], log[s], s))
d['fixed'] = r
json.dump(d, open(V + '/known-findings.json', 'w'), indent=1)
