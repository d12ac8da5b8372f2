#!/usr/bin/env python3
"""Writes the 'fixed' list of known_findings.json from the fix: commits in /repo and the table below (subject -> properties)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO_ROOT', '/repo')
# first words of the commit subject (after 'fix: ') -> property
PROP = json.load(open(os.path.join(ROOT, 'tools', 'fixed_properties.json')))
log = subprocess.check_output(['git', '-C', REPO, 'log', '--reverse', '--format=%h %s', '79738d2..HEAD'], text=True).splitlines()
out = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    p = [v for k, v in PROP.items() if s.startswith(k)]
    assert len(p) == 1, (s, p)
    out += ['fixed: property=%s %s %s' % (q, h, s) for q in p[0].split()]
f = os.path.join(ROOT, 'known_findings.json')
d = json.load(open(f))
d['fixed'] = out
json.dump(d, open(f, 'w'), indent=1)
print(len(out), 'fixed')
