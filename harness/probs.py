"""Test problems, regularizers, convex sets, sampling callbacks and faults, all described by plain JSON data so that
every run can be replayed exactly from its scenario."""
import math
import numpy as np


def make_resid(p):
    """Residual function r(x) -> 1d array (pure functions of x)."""
    k = p['kind']
    if k == 'linear':
        A = np.array(p['A'], dtype=float)
        b = np.array(p['b'], dtype=float)
        return lambda x: A.dot(x) - b
    if k == 'rosen':
        return lambda x: np.array([10.0 * (x[1] - x[0] ** 2), 1.0 - x[0]])
    if k == 'rosenn':  # extended, any n >= 1
        def f(x):
            r = [1.0 - x[0]]
            for i in range(len(x) - 1):
                r.append(10.0 * (x[i + 1] - x[i] ** 2))
            return np.array(r)
        return f
    if k == 'powell':  # Powell singular, n = 4
        return lambda x: np.array([x[0] + 10 * x[1], math.sqrt(5) * (x[2] - x[3]), (x[1] - 2 * x[2]) ** 2,
                                   math.sqrt(10) * (x[0] - x[3]) ** 2])
    if k == 'expfit':
        t = np.linspace(0.1, 2.0, p.get('m', 6))
        d = np.exp(-0.7 * t) * 2 + 0.1 * np.cos(5 * t)
        return lambda x: x[0] * np.exp(np.clip(-x[1 % len(x)] * t, -50, 50)) + (np.sum(x[2:]) if len(x) > 2 else 0) - d
    if k == 'trig':
        def f(x):
            n = len(x)
            i = np.arange(1, n + 1)
            return n - np.sum(np.cos(x)) + i * (1 - np.cos(x)) - np.sin(x)
        return f
    if k == 'quad':  # smooth nonlinear with nonzero residual, m given
        rs = np.random.RandomState(p.get('seed', 0))
        n, m = p['n'], p['m']
        A = rs.randn(m, n)
        b = rs.randn(m)
        c = p.get('c', 0.3)
        return lambda x: A.dot(x) - b + c * (np.arange(1, m + 1) / m) * np.sum((x - 0.5) ** 2)
    if k == 'abs':  # nonsmooth
        rs = np.random.RandomState(p.get('seed', 0))
        n, m = p['n'], p['m']
        A = rs.randn(m, n)
        return lambda x: np.abs(A.dot(x) - 0.3) + 0.1
    if k == 'wave':  # multi-modal
        n = p['n']
        return lambda x: np.concatenate([np.sin(3 * x) + 0.1 * x, 0.5 + np.cos(2 * x)])
    if k == 'const':
        m = p['m']
        return lambda x: np.full(m, p.get('v', 1.0))
    if k == 'jump':  # discontinuous
        return lambda x: np.concatenate([np.floor(4 * x), x - 0.3])
    raise ValueError(k)


class Script(object):
    """Adversarial but deterministic objective: the value at the k-th distinct point is decided by an outcome word
    (generated from the specification); the same point always gets the same value."""
    def __init__(self, p):
        self.word = p['word']
        self.m = p.get('m', 2)
        self.tail = p.get('tail', 'worse')
        self.memo = {}
        self.best = None
        self.k = 0
        self.rs = np.random.RandomState(p.get('seed', 0))
        self.start = p.get('start', 100.0)

    def __call__(self, x):
        key = np.asarray(x, dtype=float).tobytes()
        if key in self.memo:
            return self.memo[key].copy()
        out = self.word[self.k] if self.k < len(self.word) else self.tail
        self.k += 1
        b = self.best if self.best is not None else self.start
        jit = 1.0 + 0.01 * self.rs.rand()
        if isinstance(out, (int, float)):   # an absolute level
            v = float(out)
        elif out == 'better':
            v = b * 0.6 / jit
        elif out == 'bit':  # slightly better
            v = b * (1 - 1e-7)
        elif out == 'tie':
            v = b
        elif out == 'worse':
            v = b * 1.5 * jit
        elif out == 'bad':
            v = b * 1000.0 * jit
        elif out == 'tiny':
            v = 1e-30
        elif out == 'zero':
            v = 0.0
        elif out == 'nan':
            v = math.nan
        elif out == 'inf':
            v = math.inf
        elif out == 'ninf':
            v = math.inf
        elif out == 'huge':
            v = 1e300
        elif out == 'over':
            v = 'over'
        else:
            raise ValueError(out)
        if v == 'over':
            r = np.full(self.m, 1e200)
        elif v != v:
            r = np.full(self.m, 1.0)
            r[self.rs.randint(self.m)] = math.nan
        elif v == math.inf:
            r = np.full(self.m, 1.0)
            r[self.rs.randint(self.m)] = -math.inf if out == 'ninf' else math.inf
        else:
            # distribute over the components with random weights
            if isinstance(out, (int, float)):    # equal levels are exact ties
                w = self.w0 = getattr(self, 'w0', 0.2 + self.rs.rand(self.m))
            else:
                w = 0.2 + self.rs.rand(self.m)
            r = np.sqrt(v * w / np.sum(w)) * np.sign(self.rs.rand(self.m) - 0.3)
            if self.best is None or v < self.best:
                self.best = v
        self.memo[key] = r.copy()
        return r


class Noise(object):
    """Wrap a residual function with noise depending on the call number only (fixed stream)."""
    def __init__(self, f, p):
        self.f = f
        self.rs = np.random.RandomState(p.get('seed', 0))
        self.mult = p.get('mult', 0.0)
        self.add = p.get('add', 0.0)

    def __call__(self, x):
        r = self.f(x)
        return r * (1 + self.mult * self.rs.randn(len(r))) + self.add * self.rs.randn(len(r))


FAULTVAL = {'nan': math.nan, 'inf': math.inf, 'ninf': -math.inf, 'big': 1e200, 'bignc': 1e160, 'huge': 1e308,
            'big150': 1e150, 'big100': 1e100}


class UserError(Exception):
    pass


class UserBase(BaseException):
    pass


EXC = {'raise': UserError, 'raise_ve': ValueError, 'raise_la': np.linalg.LinAlgError, 'raise_of': OverflowError, 'raise_rt': RuntimeError,
       'raise_zd': ZeroDivisionError, 'raise_fp': FloatingPointError, 'raise_ae': AssertionError, 'raise_ki': KeyboardInterrupt,
       'raise_ie': IndexError, 'raise_te': TypeError, 'raise_si': StopIteration, 'raise_ub': UserBase}


class Faulty(object):
    """Inject a fault at the listed call numbers (1-based) or from a call number on."""
    def __init__(self, f, p):
        self.f = f
        self.p = p
        self.k = 0
        self.raised = None

    def hit(self, k):
        p = self.p
        return k in p.get('at', []) or ('from' in p and k >= p['from'])

    def __call__(self, x):
        self.k += 1
        r = np.array(self.f(x), dtype=float)
        if not self.hit(self.k):
            return r
        kind = self.p['fault']
        if kind.startswith('raise'):
            self.raised = EXC[kind]('fault at call %d' % self.k)
            raise self.raised
        if self.p.get('whole', False):
            r[:] = FAULTVAL[kind]
        else:
            r[self.p.get('comp', 0) % len(r)] = FAULTVAL[kind]
        return r


def make_h(p):
    """(h, lh, prox_uh) for a regularizer description."""
    k = p['kind']
    if k == 'l1':
        lam = p['lam']
        h = lambda x, *a: lam * np.sum(np.abs(x))
        prox = lambda x, u, *a: np.sign(x) * np.maximum(np.abs(x) - lam * u, 0.0)
        return h, lam * math.sqrt(p['n']), prox
    if k == 'l2':  # lam*||x||_2
        lam = p['lam']
        h = lambda x, *a: lam * np.linalg.norm(x)

        def prox(x, u, *a):
            nx = np.linalg.norm(x)
            return x * 0.0 if nx <= lam * u else x * (1 - lam * u / nx)
        return h, lam, prox
    if k == 'l1w':  # weighted and shifted l1
        w = np.array(p['w'], dtype=float)
        c = np.array(p['c'], dtype=float)
        h = lambda x, *a: float(np.sum(w * np.abs(x - c)))
        prox = lambda x, u, *a: c + np.sign(x - c) * np.maximum(np.abs(x - c) - w * u, 0.0)
        return h, float(np.linalg.norm(w)), prox
    if k == 'linf':  # lam * ||x||_inf
        lam = p['lam']
        h = lambda x, *a: lam * np.max(np.abs(x))

        def prox(x, u, *a):
            # Moreau: x - proj onto l1 ball of radius lam*u
            return x - proj_l1(x, lam * u)
        return h, lam, prox
    raise ValueError(k)


def proj_l1(v, z):
    if np.sum(np.abs(v)) <= z:
        return v.copy()
    u = np.sort(np.abs(v))[::-1]
    cs = np.cumsum(u)
    rho = np.nonzero(u * np.arange(1, len(u) + 1) > (cs - z))[0][-1]
    th = (cs[rho] - z) / (rho + 1.0)
    return np.sign(v) * np.maximum(np.abs(v) - th, 0.0)


def make_proj(p):
    k = p['kind']
    if k == 'box':
        lo, hi = np.array(p['lo'], dtype=float), np.array(p['hi'], dtype=float)
        return lambda x: np.minimum(np.maximum(x, lo), hi)
    if k == 'ball':
        c, r = np.array(p['c'], dtype=float), p['r']

        def f(x):
            d = np.linalg.norm(x - c)
            return x.copy() if d <= r else c + (r / d) * (x - c)
        return f
    if k == 'half':  # a.x <= b
        a, b = np.array(p['a'], dtype=float), p['b']
        na = np.dot(a, a)

        def f(x):
            v = np.dot(a, x) - b
            return x.copy() if v <= 0 else x - (v / na) * a
        return f
    if k == 'plane':  # a.x == b
        a, b = np.array(p['a'], dtype=float), p['b']
        na = np.dot(a, a)
        return lambda x: x - ((np.dot(a, x) - b) / na) * a
    raise ValueError(k)


def make_nsamples(p):
    """Sampling request callback (delta, rho, iter, nrestarts) -> number of samples"""
    k = p['kind']
    if k == 'const':
        return lambda delta, rho, it, nruns: p['k']
    if k == 'iter':
        return lambda delta, rho, it, nruns: 1 + (it % p['k'])
    if k == 'runs':
        return lambda delta, rho, it, nruns: 1 + nruns % p['k']
    if k == 'rho':
        return lambda delta, rho, it, nruns: int(min(p['k'], max(1, round(0.1 / rho)))) if rho > 0 else 1
    if k == 'cyc':  # varies at every request
        c = [0]

        def f(delta, rho, it, nruns):
            c[0] += 1
            return p['seq'][c[0] % len(p['seq'])]
        return f
    raise ValueError(k)
