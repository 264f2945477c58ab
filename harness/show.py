"""python show.py FILE : runs a recorded scenario and prints a readable trace"""
import json, sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get('DFO_REPO', '/repo'))
import warnings
import numpy as np
import rec, dfols
d = json.load(open(sys.argv[1])); s = d['scenario']
print(d['clauses']); print({k: v for k, v in s.items() if k != 'prob'}); print(str(s['prob'])[:300])
P = rec.Prepared(s)
k = [0]
def obj(x):
    k[0] += 1
    r = P.f(x.copy())
    if k[0] <= 60 or '-a' in sys.argv: print(k[0], x, 'f=', np.dot(r, r) + (P.h(x) if P.h else 0), 'r=', r[:4])
    return r
if P.nsamp: P.kw['nsamples'] = P.nsamp
np.random.seed(s.get('seed', 0))
warnings.simplefilter('ignore')
try:
    print(dfols.solve(obj, P.x0, **P.kw))
except Exception:
    traceback.print_exc()
