"""C05: linear least-squares problems with the default budget, against a feasible witness of the minimum."""
import math
import warnings
import numpy as np
from scipy.optimize import lsq_linear
from dy import enc, encv, encm
import rec
import dfols


def scenarios(tier, seed):
    N = 16000 if tier == 'quick' else 100000
    for i in range(N):
        yield {'id': 'C05-%s-%d' % (seed, i), 's': [int(seed), i]}


def matrix(R, m, n, cond):
    k = min(m, n)
    U = np.linalg.qr(R.randn(m, k))[0]
    V = np.linalg.qr(R.randn(n, k))[0]
    mode = R.choice(['geo', 'one', 'rand'])
    if k == 1:
        s = np.ones(1)
    elif mode == 'geo':
        s = cond ** -(np.arange(k) / (k - 1.0))
    elif mode == 'one':
        s = np.ones(k)
        s[-1] = 1.0 / cond
    else:
        s = cond ** -R.rand(k)
    return U.dot(np.diag(s)).dot(V.T)


def witness(A, b, lo, hi):
    n = A.shape[1]
    if np.all(np.isinf(lo)) and np.all(np.isinf(hi)):
        return np.linalg.lstsq(A, b, rcond=None)[0]
    best, bf = None, math.inf
    for meth in ('bvls', 'trf'):
        try:
            z = lsq_linear(A, b, bounds=(lo, hi), method=meth, tol=1e-14, max_iter=500).x
        except Exception:
            continue
        z = np.minimum(np.maximum(z, lo), hi)
        # polish: fix the coordinates at a bound, solve for the others
        act = (z <= lo + 1e-9 * (1 + np.abs(lo))) | (z >= hi - 1e-9 * (1 + np.abs(hi)))
        cand = [z]
        if not np.all(act):
            y = z.copy()
            y[act] = np.where(z[act] - lo[act] < hi[act] - z[act], lo[act], hi[act])
            y[~act] = np.linalg.lstsq(A[:, ~act], b - A[:, act].dot(y[act]), rcond=None)[0]
            cand.append(np.minimum(np.maximum(y, lo), hi))
        for c in cand:
            f = float(np.sum((A.dot(c) - b) ** 2))
            if f < bf:
                best, bf = c, f
    return best


class Case(object):
    def __init__(self, s):
        R = np.random.RandomState([s[0] % 2 ** 31, s[1], 5])
        n = self.n = int(R.choice([1, 2, 2, 3, 3, 4, 5, 6, 8]))
        t = R.rand()
        m = self.m = n if t < 0.3 else int(R.randint(1, n + 1)) if t < 0.42 else n + int(R.randint(1, 8))
        cond = 10.0 ** (R.choice([0.0, 1.0, 2.0, 3.0]) * R.rand())
        A = matrix(R, m, n, cond) * 10.0 ** R.choice([0, 0, 0, -1, 1, 2])
        if R.rand() < 0.1:
            A = np.round(A * 4) / 4
            sv = np.linalg.svd(A, compute_uv=False)
            if sv[-1] < 1e-3 * sv[0]:
                A = A + np.eye(m, n)
        sv = np.linalg.svd(A, compute_uv=False)
        if sv[-1] * 1e3 < sv[0]:
            A = np.eye(m, n)
            sv = np.ones(min(m, n))
        self.s2 = float(sv[-1]) ** 2 if m >= n else 0.0
        xt = R.randn(n) * 10.0 ** R.uniform(-1, 1.5)
        k = R.rand()
        res = R.randn(m) * (0.0 if k < 0.3 else 10.0 ** R.uniform(-3, 1)) * np.linalg.norm(A, 2)
        self.A, self.b = A, A.dot(xt) + res
        self.x0 = (R.randn(n) * 10.0 ** R.uniform(-1, 1.5) if R.rand() < 0.6 else xt + R.randn(n) * 10.0 ** R.uniform(-3, 1)) if R.rand() < 0.95 else np.zeros(n)
        R2 = np.random.RandomState([s[0] % 2 ** 31, s[1], 55])
        if R2.rand() < 0.08:    # far away
            k = 10.0 ** R2.uniform(1, 4)
            z = R2.randn(n) * k
            if R2.rand() < 0.5:
                xt = xt + z
                self.b = A.dot(xt) + res
            if R2.rand() < 0.7:
                self.x0 = self.x0 + z
        self.kw = {}
        self.lo, self.hi = np.full(n, -math.inf), np.full(n, math.inf)
        rb = None
        if R.rand() < 0.2:
            rb = 10.0 ** R.uniform(-2, 0) * max(1.0, np.max(np.abs(self.x0)))
        rb_eff = rb if rb is not None else 0.1 * max(1.0, np.max(np.abs(self.x0)))
        if R.rand() < 0.75:
            scal = R.rand() < 0.35
            w = (2.05 * rb_eff if not scal else 0.1) + 10.0 ** R.uniform(-1, 1.2) * R.rand(n) * (1.0 if scal else 1.0)
            where = R.choice(['x0', 'xt', 'away', 'mix'])
            for i in range(n):
                c = {'x0': self.x0[i], 'xt': xt[i], 'away': xt[i] + R.choice([-1, 1]) * (1 + R.rand()) * w[i],
                     'mix': R.choice([self.x0[i], xt[i]])}[where]
                a = c - w[i] * R.choice([R.rand(), R.rand(), 0.0, 1.0])
                self.lo[i], self.hi[i] = a, a + w[i]
            if not scal:
                side = R.rand()
                for i in range(n):
                    t = R.rand()
                    if side < 0.5 and t < 0.25:
                        self.lo[i] = -math.inf
                    elif side < 0.5 and t < 0.5:
                        self.hi[i] = math.inf
            fl, fh = np.where(np.isinf(self.lo), -1e20, self.lo), np.where(np.isinf(self.hi), 1e20, self.hi)
            while np.any(fh - fl < 2 * rb_eff) and not scal:
                fh = np.where(fh - fl < 2 * rb_eff, fh + 1e-9 * (1 + np.abs(fh)), fh)
            self.hi = np.where(np.isinf(self.hi), self.hi, fh)
            self.kw['bounds'] = (fl, fh)
            if scal:
                self.kw['scaling_within_bounds'] = True
                rb = None if R.rand() < 0.7 else float(R.choice([0.05, 0.2, 0.4]))
        if rb is not None:
            self.kw['rhobeg'] = float(rb)
        q = R.rand()
        if q < 0.35:
            self.kw['npt'] = int(R.choice([n + 2, 2 * n + 1, (n + 1) * (n + 2) // 2, n + 3]))
            if self.kw['npt'] > (n + 1) * (n + 2) // 2:
                self.kw['npt'] = (n + 1) * (n + 2) // 2


def record(scn):
    c = Case(scn['s'])
    A, b = c.A.copy(), c.b.copy()
    xs = witness(A, b, c.lo, c.hi)
    e = {'id': scn['id'], 'n': c.n, 'A': encm(A), 'b': encv(b), 'lo': encv(c.lo), 'hi': encv(c.hi), 'xs': encv(xs), 'rel': enc(1.00000001e-6),
         's2inv': enc(0.26 / c.s2 if c.s2 > 0 else math.inf), 'status': 'ok', 'x': [], 'obj': [7, 0], 'success': False, 'flag': 0, 'nf': 0, 'msg': ''}
    np.random.seed(scn['s'][1] % 1000)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'), rec.cpu_limit(120.0):
            warnings.simplefilter('ignore')
            s = dfols.solve(lambda x: A.dot(x) - b, c.x0.copy(), do_logging=False, **c.kw)
        e.update(x=encv(s.x) if s.x is not None else [], obj=enc(s.obj if s.obj is not None else math.nan), flag=int(s.flag), nf=int(s.nf), success=bool(s.flag == s.EXIT_SUCCESS),
                 msg=str(s.msg))
    except rec.Hang:
        e['status'] = 'hang'
    except Exception as ex:
        e['status'] = 'raise ' + type(ex).__name__ + str(ex)[:100]
    return [e]
