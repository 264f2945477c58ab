"""catchtable.py : rewrites section 6 of DESIGN.md (which check catches which planted bug) from tools/catch.json (written by catch.py)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + '/tools/catch.json'))
s = open(V + '/DESIGN.md').read()
s = s.split('\n## 6. ')[0].rstrip('\n') + '\n\n## 6. Which check catches which planted bug\n\n'
s += 'Quick tier of the property\'s own check, one run each (`tools/catch.py`, clause = first one reported).\n\n| planted bug | property | result | clause | breaks |\n|---|---|---|---|---|\n'
for sid in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, sid)))
    r = res.get(sid, {})
    s += '| %s | %s | %s | %s | %s |\n' % (sid, m['property'], r.get('result', 'not run'), r.get('clause', ''), m['what_it_breaks'].replace('|', '/')[:110])
open(V + '/DESIGN.md', 'w').write(s)
