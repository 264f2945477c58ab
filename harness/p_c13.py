"""C13: random geometry and convex-constrained subproblems, and the steps met in real (regularised, constrained) runs."""
import math
import warnings
import numpy as np
from dy import enc, encv, encm
import gen
import probs
import rec
from dfols import trust_region

OP8, OP6, T12 = enc(1.0 + 1e-8), enc(1.0 + 1e-6), enc(1e-12)


def scenarios(tier, seed):
    N = 16000 if tier == 'quick' else 1000000
    for i in range(N):
        sid = 'C13-%s-%d' % (seed, i)
        k = i % 30
        if k == 29:
            yield {'id': sid, 'kind': 'run', 'run': gen.run_scenario('C13r', seed, i, proj=0.0, h=1.0, fault=0.0, nsamp=0.0)}
        elif k == 28:
            yield {'id': sid, 'kind': 'run', 'run': gen.run_scenario('C13r', seed, i, proj=1.0, h=0.4, fault=0.0, nsamp=0.0, scaling=0.0)}
        elif k == 27:
            yield {'id': sid, 'kind': 'run', 'run': gen.run_scenario('C13r', seed, i, proj=0.0, h=0.0, fault=0.0)}
        elif k in (20, 21, 22, 23):
            yield {'id': sid, 'kind': 'conv', 's': [int(seed), i]}
        else:
            yield {'id': sid, 'kind': 'geom', 's': [int(seed), i]}


def geom_problem(s):
    R = np.random.RandomState([s[0] % 2 ** 31, s[1], 13])
    n = int(R.choice([1, 2, 3, 4, 5, 6, 8]))
    delta = 10.0 ** R.uniform(-5, 0) * R.choice([1.0, 10.0])
    k = R.rand()
    gs = 10.0 ** R.uniform(-3, 3) if R.rand() < 0.5 else 1.0 / delta
    if k < 0.5:
        g = gs * R.randn(n)
    elif k < 0.7:
        g = gs * R.randint(-2, 3, size=n).astype(float)
    elif k < 0.85:
        g = gs * R.randn(n) * 10.0 ** R.uniform(-6, 0, size=n)
    elif k < 0.95:
        g = gs * np.sign(R.randn(n))
    else:
        g = np.zeros(n)
    k = R.rand()
    c = 0.0 if k < 0.3 else 1.0 if k < 0.5 else -1.0 if k < 0.55 else R.randn() * gs * delta * 10.0 ** R.uniform(-2, 2)
    xb = np.zeros(n) if R.rand() < 0.3 else R.randn(n) * 10.0 ** R.uniform(-2, 1)
    a, b = np.full(n, -1e20), np.full(n, 1e20)
    mode = R.choice(['free', 'mix', 'tight', 'one', 'near'], p=[.1, .35, .2, .15, .2])
    for i in range(n):
        for (v, sg) in ((a, -1.0), (b, 1.0)):
            if mode == 'free':
                continue
            if mode == 'mix':
                k = R.choice(5)
            elif mode == 'tight':
                k = R.choice([0, 2])
            elif mode == 'near':
                k = 5
            else:
                k = R.choice([0, 4], p=[.3, .7])
            if k == 0:
                v[i] = 0.0
            elif k == 1:
                v[i] = sg * delta * 10.0 ** R.uniform(-10, -2)
            elif k == 2:
                v[i] = sg * delta * R.uniform(0.02, 1.3)
            elif k == 3:
                v[i] = sg * delta * 10.0 ** R.uniform(0, 3)
            elif k == 5:
                v[i] = sg * delta / math.sqrt(n) * R.uniform(0.3, 1.6)
    lo = np.where(a <= -1e20, -1e20, np.where(a == 0.0, xb, xb + a))
    up = np.where(b >= 1e20, 1e20, np.where(b == 0.0, xb, xb + b))
    return xb, float(c), g, np.minimum(lo, xb), np.maximum(up, xb), float(delta)


def ray(xb, g, lo, up, delta):
    """largest t with |clip(t g)| <= delta (bisection)"""
    a, b = lo - xb, up - xb
    nz = np.abs(g[g != 0])
    if len(nz) == 0:
        return 0.0

    def nrm(t):
        return np.linalg.norm(np.clip(t * g, np.minimum(a, 0.0), np.maximum(b, 0.0)))
    hi = 4.0 * delta / np.min(nz)
    if nrm(hi) <= delta * (1 - 1e-13):
        return hi
    l, h = 0.0, hi
    for _ in range(200):
        m = 0.5 * (l + h)
        if nrm(m) <= delta * (1 - 1e-14):
            l = m
        else:
            h = m
    return l


def geom_event(sid, xb, c, g, lo, up, delta, f):
    e = {'e': 'geom', 'id': sid, 'n': len(xb), 'xb': encv(xb), 'c': enc(c), 'g': encv(g), 'lo': encv(lo), 'up': encv(up),
         'delta': enc(delta), 'op8': OP8, 'op6': OP6, 'tol12': T12, 'x': [], 'status': 'ok',
         't': [enc(ray(xb, g, lo, up, delta)), enc(-ray(xb, -g, lo, up, delta))]}
    out = None
    try:
        out = f(xb.copy(), c, g.copy(), lo.copy(), up.copy(), delta)
        e['x'] = encv(out)
    except Exception as ex:
        e['status'] = 'raise ' + type(ex).__name__
    return e, out


def conv_event(sid, who, delta, f, n):
    e = {'e': 'conv', 'id': sid, 'who': who, 'n': n, 'delta': enc(delta), 'op8': OP8, 'd': [], 'status': 'ok'}
    out = None
    try:
        out = f()
        e['d'] = encv(out[0] if isinstance(out, tuple) else out)
    except Exception as ex:
        e['status'] = 'raise ' + type(ex).__name__
    return e, out


def conv_problem(s):
    R = np.random.RandomState([s[0] % 2 ** 31, s[1], 14])
    n = int(R.choice([1, 2, 3, 4]))
    delta = 10.0 ** R.uniform(-5, 0)
    gs = 10.0 ** R.uniform(-2, 2)
    g = gs * R.randn(n) * (R.rand(n) > 0.15)
    hk = R.choice(['psd', 'low', 'zero', 'indef'])
    A = R.randn(n, n) if hk != 'low' else R.randn(1, n)
    H = A.T.dot(A) if hk in ('psd', 'low') else np.zeros((n, n)) if hk == 'zero' else A + A.T
    H = H * gs / delta * 10.0 ** R.uniform(-2, 1.5)
    x = np.zeros(n) if R.rand() < 0.3 else R.randn(n) * 10.0 ** R.uniform(-1, 1)
    ps = []
    for _ in range(R.randint(1, 4)):
        k = R.choice(['box', 'ball', 'half', 'plane'], p=[.35, .3, .25, .1])
        if k == 'box':
            w = delta * 10.0 ** R.uniform(-1, 1, size=(2, n)) * (R.rand(2, n) > 0.2)
            ps.append({'kind': 'box', 'lo': list(x - w[0]), 'hi': list(x + w[1])})
        elif k == 'ball':
            r = float(delta * 10.0 ** R.uniform(-1, 2))
            d = R.randn(n)
            ps.append({'kind': 'ball', 'c': list(x + r * (1.0 if R.rand() < 0.3 else R.rand()) * d / np.linalg.norm(d)), 'r': r * (1 + 1e-15)})
        else:
            a = R.randn(n)
            ps.append({'kind': k, 'a': list(a), 'b': float(np.dot(a, x)) + (0.0 if k == 'plane' or R.rand() < 0.3 else delta * R.rand())})
    h = {'kind': str(R.choice(['l1', 'l2', 'linf'])), 'lam': float(gs * 10.0 ** R.uniform(-2, 1)), 'n': n}
    return R, n, x, g, 0.5 * (H + H.T), delta, ps, h


def record(scn):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        sid = scn['id']
        if scn['kind'] == 'geom':
            p = geom_problem(scn['s'])
            return [geom_event(sid, *p, f=trust_region.trsbox_geometry)[0]]
        if scn['kind'] == 'conv':
            R, n, x, g, H, delta, ps, h = conv_problem(scn['s'])
            P = [probs.make_proj(p) for p in ps]
            hh, lh, prox = probs.make_h(h)
            it = int(R.choice([3, 30, 100]))
            out = [conv_event(sid, 'pgd', delta, lambda: trust_region.ctrsbox_pgd(x.copy(), g.copy(), H.copy(), list(P), delta, d_max_iters=it), n)[0]]
            c = float(R.choice([0.0, 1.0, -0.5]))
            out.append(conv_event(sid, 'cgeom', delta, lambda: trust_region.ctrsbox_geometry(x.copy(), c, g.copy(), list(P), delta, d_max_iters=it), n)[0])
            mi = int(R.choice([1, 10, 60]))
            out.append(conv_event(sid, 'sfista', delta, lambda: trust_region.ctrsbox_sfista(
                x.copy(), g.copy(), H.copy(), list(P), delta, hh, lh, prox, func_tol=1e-3 * gs_of(g, delta), max_iters=mi, d_max_iters=it), n)[0])
            return out
        return record_run(sid, scn['run'])


def gs_of(g, delta):
    return max(1e-8, float(np.linalg.norm(g)) * delta)


def sane(*vs):
    return all(np.all(np.isfinite(v)) and np.max(np.abs(v), initial=0.0) < 1e12 for v in vs)


def record_run(sid, run):
    """the step solvers as the main loop uses them"""
    import dfols.controller as C
    out = []
    saved = {}

    def spy(name, mk):
        if hasattr(C, name):
            saved[name] = getattr(C, name)
            setattr(C, name, mk(saved[name]))

    def mk_geom(real):
        def f(xb, c, g, lo, up, delta, *a, **k):
            if len(xb) <= 8 and len(out) < 80 and sane(xb, c, g) and np.linalg.norm(g) * delta > 1e-10:
                e, r = geom_event(sid, xb, c, g, lo, up, delta, lambda *q: real(*q, *a, **k))
                out.append(e)
                if r is not None:
                    return r
            return real(xb, c, g, lo, up, delta, *a, **k)
        return f

    def mk_conv(who, at):
        def mk(real):
            def f(*a, **k):
                if len(out) < 80 and sane(a[1], a[2]):
                    e, r = conv_event(sid, who, a[at], lambda: real(*a, **k), len(a[0]))
                    out.append(e)
                    if r is not None:
                        return r
                return real(*a, **k)
            return f
        return mk
    real_step = C.Controller.trust_region_step

    def step(self, *a, **k):
        r = real_step(self, *a, **k)
        if self.h is not None and len(out) < 80:
            d, g, H = r[0], r[1], r[2]
            if sane(g, H):
                x0 = self.model.xopt(abs_coordinates=True)
                h = self.h
                un = lambda x: trust_region.remove_scaling(x, self.scaling_changes)
                out.append({'e': 'pred', 'id': sid, 'n': len(g), 'g': encv(g), 'H': encm(H), 'd': encv(d), 'delta': enc(self.delta), 'op8': OP8,
                            'h0': enc(h(un(x0), *self.argsh)), 'h1': enc(h(un(x0 + d), *self.argsh))})
        return r
    spy('trsbox_geometry', mk_geom)
    spy('ctrsbox_geometry', mk_conv('cgeom', 4))
    spy('ctrsbox_pgd', mk_conv('pgd', 4))
    spy('ctrsbox_sfista', mk_conv('sfista', 4))
    C.Controller.trust_region_step = step
    try:
        rec.run(run)
    finally:
        C.Controller.trust_region_step = real_step
        for k, v in saved.items():
            setattr(C, k, v)
    return out
