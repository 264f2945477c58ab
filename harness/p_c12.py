"""C12: random and structured subproblems for trsbox, plus the subproblems met in real runs."""
import warnings
import numpy as np
from dy import enc, encv, encm
import gen
import rec
from dfols import trust_region


def scenarios(tier, seed):
    N = 24000 if tier == 'quick' else 2000000
    for i in range(N):
        if i % 40 == 39:
            s = gen.run_scenario('C12r', seed, i, proj=0.0, h=0.0, fault=0.0)
            yield {'id': 'C12-%s-%d' % (seed, i), 'kind': 'run', 'run': s}
        else:
            yield {'id': 'C12-%s-%d' % (seed, i), 'kind': 'rand', 's': [int(seed), i]}


PYTH = [(3, 4, 0), (0, 3, 4), (1, 2, 2), (2, 3, 6), (1, 4, 8), (2, 6, 9), (4, 4, 7), (6, 6, 7), (1, 1, 1, 1), (2, 4, 5, 6), (1, 3, 3, 9), (2, 2, 4, 5),
        (1, 1, 3, 5), (3, 4, 12), (3, 4, 0, 0), (5, 12, 0), (1, 2, 2, 4), (1, 1, 1, 2, 3), (2, 2, 2, 2, 3), (1, 1, 4, 4, 4, 1)]


def tie(R):
    """steps which reach the trust-region boundary and a bound (or several) at the same time, exactly or up to rounding"""
    v = np.array(PYTH[R.randint(len(PYTH))], dtype=float)
    if R.rand() < 0.3:
        v = np.concatenate([v, R.choice([0.0, 0.0, 1.0], size=R.randint(1, 3))])
    n = len(v)
    v = v[R.permutation(n)] * R.choice([-1.0, 1.0], size=n) * 2.0 ** R.randint(-12, 3)
    delta = np.sqrt(v.dot(v))
    xopt = np.zeros(n) if R.rand() < 0.6 else R.randint(-4, 5, size=n) * 2.0 ** R.randint(-3, 2)
    k = 2.0 ** R.randint(-3, 4)
    g = -k * v
    A = R.randint(-2, 3, size=(n, n)).astype(float)
    H = R.choice([-1.0, 1.0]) * A.T.dot(A) if R.rand() < 0.5 else (A + A.T if R.rand() < 0.5 else np.diag(R.randint(-2, 3, size=n).astype(float)))
    H = H * k * 2.0 ** R.randint(-6, -1)
    sl, su = xopt - 2.0 ** R.randint(3, 6) * delta, xopt + 2.0 ** R.randint(3, 6) * delta
    hit = R.rand(n) < R.choice([0.2, 0.5, 1.0])
    for i in range(n):
        if hit[i] and v[i] != 0.0:
            t = xopt[i] + v[i]
            q = R.rand()
            if q < 0.25:
                t = np.nextafter(t, np.inf)
            elif q < 0.5:
                t = np.nextafter(t, -np.inf)
            if v[i] > 0:
                su[i] = max(t, xopt[i])
            else:
                sl[i] = min(t, xopt[i])
        elif R.rand() < 0.15:
            if R.rand() < 0.5:
                su[i] = xopt[i]
            else:
                sl[i] = xopt[i]
    if R.rand() < 0.2:
        delta = np.nextafter(delta, R.choice([0.0, np.inf]))
    return xopt, g, H, sl, su, float(delta)


def problem(s):
    if s[1] % 10 == 7:
        return tie(np.random.RandomState([s[0] % 2 ** 31, s[1], 13]))
    R = np.random.RandomState([s[0] % 2 ** 31, s[1], 12])
    n = int(R.choice([1, 2, 3, 4, 5, 6, 7, 8], p=[.12, .2, .16, .14, .12, .08, .08, .1]))
    delta = 10.0 ** R.uniform(-8, 0) * R.choice([1.0, 10.0])
    if R.rand() < 0.1:
        delta = 1.0
    gs = 10.0 ** R.uniform(-3, 3)
    g = gs * R.randn(n)
    k = R.rand()
    if k < 0.15:
        g[R.rand(n) < 0.4] = 0.0
    elif k < 0.25:
        g = gs * R.randint(-2, 3, size=n).astype(float)
    elif k < 0.3:
        g = g * 10.0 ** R.uniform(-6, 0, size=n)
    elif k < 0.32:
        g = np.zeros(n)
    # Hessian, of a size to make the quadratic term matter in the region
    hk = R.choice(['psd', 'low', 'zero', 'indef', 'diag', 'int', 'neg', 'gn', 'ill'])
    hs = gs / delta * 10.0 ** R.uniform(-2, 2)
    if R.rand() < 0.15:
        hs = gs * 10.0 ** R.uniform(-3, 3)
    A = R.randn(n, n)
    if hk == 'psd':
        H = A.T.dot(A)
    elif hk == 'low':
        A = R.randn(R.randint(1, n + 1), n)
        H = A.T.dot(A)
    elif hk == 'gn':                 # Gauss-Newton: g = 2 J'r, H = 2 J'J (g in the range of H)
        m = R.randint(1, n + 3)
        A = R.randn(m, n)
        r = R.randn(m)
        g = 2.0 * A.T.dot(r) * gs
        H = 2.0 * A.T.dot(A)
    elif hk == 'zero':
        H = np.zeros((n, n))
    elif hk == 'diag':
        H = np.diag(R.choice([0.0, 1.0, -1.0, 2.0, 1e-3], size=n))
    elif hk == 'int':
        A = R.randint(-2, 3, size=(n, n)).astype(float)
        H = A + A.T
    elif hk == 'neg':
        H = -A.T.dot(A)
    elif hk == 'ill':
        Q, _ = np.linalg.qr(A)
        H = Q.dot(np.diag(10.0 ** R.uniform(-8, 0, size=n))).dot(Q.T)
    else:
        H = A + A.T
    H = hs * H
    H = 0.5 * (H + H.T)
    xopt = np.zeros(n) if R.rand() < 0.3 else R.randn(n) * 10.0 ** R.uniform(-2, 1) * R.choice([1.0, delta])
    # bounds: active, nearly active, in reach, far, absent
    pk = R.choice(['free', 'mix', 'act', 'reach', 'cross'], p=[.1, .4, .2, .2, .1])
    a, b = np.full(n, -1e20), np.full(n, 1e20)
    for i in range(n):
        for (v, sg) in ((a, -1.0), (b, 1.0)):
            k = R.rand()
            if pk == 'free':
                continue
            if pk == 'mix':
                c = R.choice(5)
            elif pk == 'act':
                c = R.choice([0, 0, 2, 4])
            elif pk == 'reach':
                c = 2
            else:
                c = 5
            if c == 0:
                v[i] = 0.0
            elif c == 1:
                v[i] = sg * delta * 10.0 ** R.uniform(-12, -3)
            elif c == 2:
                v[i] = sg * delta * R.uniform(0.02, 1.5)
            elif c == 3:
                v[i] = sg * delta * 10.0 ** R.uniform(0, 4)
            elif c == 5:             # bounds crossed a little before the ball
                v[i] = sg * delta / np.sqrt(n) * R.uniform(0.5, 1.2)
        if a[i] == 0.0 and b[i] == 0.0 and R.rand() < 0.8:
            b[i] = delta * R.uniform(0.1, 2)
    sl = np.where(a <= -1e20, -1e20, np.where(a == 0.0, xopt, xopt + a))
    su = np.where(b >= 1e20, 1e20, np.where(b == 0.0, xopt, xopt + b))
    sl, su = np.minimum(sl, xopt), np.maximum(su, xopt)
    if R.rand() < 0.12:
        # the minimiser of the model lies on bounds (or within rounding of them): the last step just reaches them
        t = R.randn(n)
        t *= delta * R.uniform(0.1, 0.9) / np.linalg.norm(t)
        for i in range(n):
            if R.rand() < 0.7:
                if t[i] > 0:
                    su[i] = xopt[i] + t[i]
                else:
                    sl[i] = xopt[i] + t[i]
        sl, su = np.minimum(np.minimum(sl, xopt), xopt + t), np.maximum(np.maximum(su, xopt), xopt + t)
        if R.rand() < 0.5:
            H = hs * np.diag(2.0 ** R.randint(-2, 3, size=n)) if R.rand() < 0.5 else hs * np.eye(n)
        else:
            H = hs * (A.T.dot(A) + 0.1 * np.eye(n))
            H = 0.5 * (H + H.T)
        g = -H.dot(t)
        if R.rand() < 0.5:
            g = g * (1.0 + R.choice([1e-15, 1e-14, -1e-15, 1e-9]) * R.randn(n))
    return xopt, g, H, sl, su, delta


def call(sid, xopt, g, H, sl, su, delta, f):
    e = {'id': sid, 'n': len(xopt), 'g': encv(g), 'H': encm(H), 'xopt': encv(xopt), 'sl': encv(sl), 'su': encv(su),
         'a': encv(sl - xopt), 'b': encv(su - xopt), 'delta': enc(delta), 'op8': enc(1.0 + 1e-8), 'd': [], 'gnew': [],
         'xd': [], 'status': 'ok', 't': enc(cauchy(xopt, g, H, sl, su, delta))}
    args = [v.copy() for v in (xopt, g, H, sl, su)] + [delta]
    out = None
    try:
        out = f(*args)
        d, gnew = out[0], out[1]
        e['d'], e['gnew'], e['xd'] = encv(d), encv(gnew), encv(xopt + d)
    except Exception as ex:
        e['status'] = 'raise ' + type(ex).__name__
    return e, out


def cauchy(xopt, g, H, sl, su, delta):
    """step length of the best point on the steepest-descent ray until the first bound or the boundary"""
    a, b = sl - xopt, su - xopt
    s = np.where(((a == 0) & (g >= 0)) | ((b == 0) & (g <= 0)), 0.0, -g)
    ns = np.linalg.norm(s)
    if ns == 0.0 or not np.isfinite(ns):
        return 0.0
    tm = delta / ns
    for i in range(len(s)):
        if s[i] > 0:
            tm = min(tm, b[i] / s[i])
        elif s[i] < 0:
            tm = min(tm, a[i] / s[i])
    cv = s.dot(H.dot(s))
    t = tm if cv <= 0 else min(tm, ns ** 2 / cv)
    for k in range(60):
        c = t * s
        if np.all(c >= a) and np.all(c <= b) and np.dot(c, c) <= delta ** 2 * (1 - 1e-15):
            break
        t *= 1 - 2.0 ** (k - 50)
    return max(t, 0.0)


def record(scn):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        if scn['kind'] == 'rand':
            p = problem(scn['s'])
            with rec.cpu_limit(20.0):
                try:
                    e, _ = call(scn['id'], *p, f=trust_region.trsbox)
                except rec.Hang:
                    e, _ = call(scn['id'], *p, f=lambda *a: None)
                    e['status'] = 'hang'
            return [e]
        # subproblems met in a real run
        import dfols.controller as C
        out = []
        real = C.trsbox

        def spy(xopt, g, H, sl, su, delta, *a, **k):
            if len(xopt) <= 8 and all(np.all(np.isfinite(v)) for v in (xopt, g, H)) and np.max(np.abs(H), initial=0.0) < 1e12 \
                    and np.max(np.abs(g)) < 1e9 and len(out) < 60:
                e, res = call(scn['id'], xopt, g, H, sl, su, delta, f=lambda *q: real(*q, *a, **k))
                out.append(e)
                if res is not None:
                    return res
            return real(xopt, g, H, sl, su, delta, *a, **k)
        C.trsbox = spy
        try:
            rec.run(scn['run'])
        finally:
            C.trsbox = real
        return out
