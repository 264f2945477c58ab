"""C06: linear residuals plus a convex Lipschitz regulariser, against a feasible witness of the minimum with a dual certificate."""
import math
import warnings
import numpy as np
from dy import enc, encv, encm
import probs
import rec
from p_c05 import matrix
import dfols


def scenarios(tier, seed):
    N = 800 if tier == 'quick' else 20000
    for i in range(N):
        yield {'id': 'C06-%s-%d' % (seed, i), 's': [int(seed), i]}


def prox_box(kind, lam, v, u, lo, hi):
    """argmin of u*h(x) + 0.5*|x - v|^2 over the box"""
    if kind == 'l1':
        # coordinatewise: convex, so the constrained minimiser is the clipped unconstrained one
        return np.minimum(np.maximum(np.sign(v) * np.maximum(np.abs(v) - lam * u, 0.0), lo), hi)
    # lam*||x||: x = clip(v*s/(s+u*lam)) with s = ||x||, the largest root
    def x_of(s):
        return np.minimum(np.maximum(v * (s / (s + u * lam)), lo), hi)
    a, b = 0.0, float(np.linalg.norm(np.minimum(np.maximum(v, lo), hi))) + float(np.linalg.norm(v)) + 1.0
    zero_ok = np.all(lo <= 0) and np.all(hi >= 0)
    if zero_ok and np.linalg.norm(v) <= u * lam:
        return np.zeros_like(v)
    for _ in range(200):
        s = 0.5 * (a + b)
        if np.linalg.norm(x_of(s)) > s:
            a = s
        else:
            b = s
    return x_of(0.5 * (a + b))


def witness(kind, lam, A, b, lo, hi):
    n = A.shape[1]
    h = (lambda x: lam * np.sum(np.abs(x))) if kind == 'l1' else (lambda x: lam * np.linalg.norm(x))
    F = lambda x: float(np.sum((A.dot(x) - b) ** 2) + h(x))
    L = 2 * np.linalg.norm(A, 2) ** 2
    x = np.minimum(np.maximum(np.zeros(n), lo), hi)
    y, t, best, bf = x.copy(), 1.0, x.copy(), F(x)
    for k in range(6000):
        xn = prox_box(kind, lam, y - 2 * A.T.dot(A.dot(y) - b) / L, 1.0 / L, lo, hi)
        f = F(xn)
        if f < bf:
            best, bf = xn.copy(), f
        if np.dot(y - xn, xn - x) > 0:  # adaptive restart
            t = 1.0
        tn = (1 + math.sqrt(1 + 4 * t * t)) / 2
        y = xn + (t - 1) / tn * (xn - x)
        done = np.linalg.norm(xn - x) <= 1e-15 * (1 + np.linalg.norm(xn)) and k > 20
        x, t = xn, tn
        if done:
            break
    return best


def dual(kind, lam, A, b, lo, hi, x):
    """a subgradient of h at x which balances the gradient where the box does not"""
    g = 2 * A.T.dot(A.dot(x) - b)
    free = (x > lo) & (x < hi)
    if kind == 'l1':
        w = np.where(x != 0, lam * np.sign(x), np.minimum(np.maximum(-g, -lam), lam))
        return w * (1 - 2.0 ** -50)
    nx = np.linalg.norm(x)
    if nx > 1e-12:
        return lam * x / nx * (1 - 2.0 ** -48)
    w = np.where(free, -g, 0.0)
    nw = np.linalg.norm(w)
    return (w if nw <= lam else w * lam / nw) * (1 - 2.0 ** -48)


class Case(object):
    def __init__(self, s):
        R = np.random.RandomState([s[0] % 2 ** 31, s[1], 6])
        n = self.n = int(R.choice([1, 2, 2, 3, 3, 4, 5]))
        m = self.m = n + int(R.choice([0, 0, 1, 2, 4]))
        self.cond = 10.0 ** (1.0 * R.rand())
        A = matrix(R, m, n, self.cond) * 10.0 ** R.uniform(-0.5, 0.5)
        self.s2 = float(np.linalg.svd(A, compute_uv=False)[-1]) ** 2
        xt = R.randn(n) * 10.0 ** R.uniform(-0.5, 0.7)
        if R.rand() < 0.4:
            xt[R.rand(n) < 0.5] = 0.0
        res = R.randn(m) * (0.0 if R.rand() < 0.4 else 10.0 ** R.uniform(-2, 0)) * np.linalg.norm(A, 2)
        self.A, self.b = A, A.dot(xt) + res
        self.x0 = R.randn(n) * 10.0 ** R.uniform(-1, 0.7) if R.rand() < 0.8 else np.zeros(n)
        self.kind = str(R.choice(['l1', 'l2']))
        self.lam = float(10.0 ** R.uniform(-3, 1.5))
        self.lh = self.lam * (math.sqrt(n) if self.kind == 'l1' else 1.0) * float(R.choice([1.0, 1.0, 1.5]))
        self.lo, self.hi = np.full(n, -math.inf), np.full(n, math.inf)
        self.kw = {}
        if R.rand() < 0.55:
            rb = 0.1 * max(1.0, np.max(np.abs(self.x0)))
            for i in range(n):
                w = 2.01 * rb + 10.0 ** R.uniform(-1, 1.0)
                c = R.choice([self.x0[i], xt[i], 0.0])
                a = c - w * R.choice([R.rand(), R.rand(), 0.0, 1.0])
                self.lo[i], self.hi[i] = a, a + w
            if R.rand() < 0.3:
                for i in range(n):
                    t = R.rand()
                    if t < 0.3:
                        self.lo[i] = -math.inf
                    elif t < 0.6:
                        self.hi[i] = math.inf
            self.kw['bounds'] = (np.where(np.isinf(self.lo), -1e20, self.lo), np.where(np.isinf(self.hi), 1e20, self.hi))
            if R.rand() < 0.35 and np.all(np.isfinite(self.lo)) and np.all(np.isfinite(self.hi)):
                self.kw['scaling_within_bounds'] = True
        self.args = R.rand() < 0.5
        self.R = R


class Tag(object):
    pass


def record(scn):
    c = Case(scn['s'])
    A, b, lam, kind, n = c.A.copy(), c.b.copy(), c.lam, c.kind, c.n
    xs = witness(kind, lam, A, b, c.lo, c.hi)
    w = dual(kind, lam, A, b, c.lo, c.hi, xs)
    hval = (lambda x: lam * float(np.sum(np.abs(x)))) if kind == 'l1' else (lambda x: lam * float(np.linalg.norm(x)))
    bad = {'f': 0, 'h': 0, 'p': 0}
    af = ah = ap = ()
    if c.args:
        t = [Tag(), Tag(), Tag()]
        af, ah, ap = [((t[k],), (t[k], k, 'x'), (t[k], np.arange(3.0)))[c.R.randint(3)] for k in range(3)]
    calls = {'f': 0, 'h': 0, 'p': 0}

    def see(k, got, want):
        calls[k] += 1
        if len(got) != len(want) or any(u is not v for u, v in zip(got, want)):
            bad[k] += 1

    def f(x, *a):
        see('f', a, af)
        return A.dot(x) - b

    def h(x, *a):
        see('h', a, ah)
        return hval(x)

    def prox(x, u, *a):
        see('p', a, ap)
        if kind == 'l1':
            return np.sign(x) * np.maximum(np.abs(x) - lam * u, 0.0)
        nx = np.linalg.norm(x)
        return x * 0.0 if nx <= lam * u else x * (1 - lam * u / nx)
    e = {'id': scn['id'], 'n': n, 'A': encm(A), 'b': encv(b), 'lo': encv(c.lo), 'hi': encv(c.hi), 'xs': encv(xs), 'w': encv(w), 'rel': enc(1.00000001e-3),
         'kind': kind, 'lam': enc(lam), 'hs': enc(hval(xs) * (1 + 2.0 ** -45)), 's2inv': enc(0.26 / c.s2 if c.s2 > 0 else math.inf), 'status': 'ok', 'x': [], 'hx': [0, 0], 'obj': [7, 0],
         'success': False, 'flag': 0, 'nf': 0, 'msg': '', 'badf': 0, 'badh': 0, 'badp': 0, 'args': bool(c.args), 'called': False}
    kw = dict(c.kw)
    if c.args:
        kw.update(argsf=af, argsh=ah, argsprox=ap)
    np.random.seed(scn['s'][1] % 1000)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'), rec.cpu_limit(300.0):
            warnings.simplefilter('ignore')
            s = dfols.solve(f, c.x0.copy(), h=h, lh=c.lh, prox_uh=prox, do_logging=False, **kw)
        e.update(x=encv(s.x) if s.x is not None else [], obj=enc(s.obj if s.obj is not None else math.nan), flag=int(s.flag), nf=int(s.nf), success=bool(s.flag == s.EXIT_SUCCESS),
                 msg=str(s.msg), hx=enc(hval(s.x)) if s.x is not None else [7, 0])
    except rec.Hang:
        e['status'] = 'hang'
    except Exception as ex:
        e['status'] = 'raise ' + type(ex).__name__ + str(ex)[:100]
    e.update(badf=bad['f'], badh=bad['h'], badp=bad['p'], called=bool(calls['h'] > 0 and calls['p'] > 0))
    return [e]
