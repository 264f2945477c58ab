"""Helper of the demonstrations: runs dfols.solve, records the calls."""
import os, sys, math, random, warnings, logging
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.path.insert(0, os.getcwd())
import numpy as np
import dfols
warnings.simplefilter('ignore')
np.seterr(all='ignore')
logging.getLogger('dfols').setLevel(logging.CRITICAL)


class Rec(object):
    """recording residual function"""
    def __init__(self, f):
        self.f, self.X, self.R = f, [], []

    def __call__(self, x, *a):
        self.X.append(np.array(x, dtype=float))
        r = np.array(self.f(np.array(x, dtype=float)), dtype=float)
        self.R.append(r.copy())
        return r


def solve(f, x0, **kw):
    rec = Rec(f)
    soln = dfols.solve(rec, np.array(x0, dtype=float), **kw)
    return rec, soln


def quad(rng, n, m, amp=1.0):
    A = rng.normal(size=(m, n)); B = amp * rng.normal(size=(m, n)); c = rng.normal(size=m)
    return lambda x: A.dot(x) + B.dot(x ** 2) * 0.3 + np.sin(x.sum()) - c


def expect(ok, what):
    if not ok:
        print('PROPERTY VIOLATED: ' + str(what))
        sys.exit(1)


def done():
    print('ok')
    sys.exit(0)
