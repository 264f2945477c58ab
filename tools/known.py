"""Regenerates the 'fixed' list of KNOWN_FINDINGS.json from /repo's fix: commits (the property of each is given here)."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fn = os.path.join(V, 'KNOWN_FINDINGS.json')
d = json.load(open(fn)) if os.path.exists(fn) else {'findings': [], 'fixed': []}
tags = json.load(open(os.path.join(V, 'tools', 'fix_props.json')))
out = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout
fixed = []
for l in out.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        if h not in tags:
            print('untagged', h, s)
            continue
        fixed.append('fixed: property=%s %s %s' % (tags[h], h, s[4:].strip()))
d['fixed'] = fixed
json.dump(d, open(fn, 'w'), indent=1)
print(len(fixed))
