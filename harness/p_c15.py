"""C15: random intersections of balls, half-spaces, boxes (and planes) for the alternating-projection routine."""
import math
import warnings
import numpy as np
from dy import enc, encv
import probs
import rec
from dfols import util


def scenarios(tier, seed):
    N = 16000 if tier == 'quick' else 1000000
    for i in range(N):
        yield {'id': 'C15-%s-%d' % (seed, i), 's': [int(seed), i]}


def case(s):
    R = np.random.RandomState([s[0] % 2 ** 31, s[1], 17])
    n = int(R.randint(1, 7))
    q = R.randn(n) * 10.0 ** R.uniform(-1, 1)
    ps = []
    p = int(R.randint(1, 5))
    slow = R.rand() < 0.25          # thin intersections: small margins
    mg = (lambda: 10.0 ** R.uniform(-5, -2)) if slow else (lambda: 10.0 ** R.uniform(-3, 0))
    for j in range(p):
        k = R.choice(['ball', 'half', 'box', 'plane'], p=[.33, .3, .33, .04])
        if j == p - 1 and R.rand() < 0.4:
            k = 'box'
        if k == 'ball':
            r = 10.0 ** R.uniform(-1, 1.5)
            d = R.randn(n)
            ps.append({'kind': 'ball', 'c': list(q + d / np.linalg.norm(d) * r * (1 - min(1.0, mg()))), 'r': float(r)})
        elif k == 'half' or (k == 'plane' and n == 1):
            a = R.randn(n)
            ps.append({'kind': 'half', 'a': list(a), 'b': float(a.dot(q) + mg())})
        elif k == 'plane':
            a = R.randn(n)
            ps.append({'kind': 'plane', 'a': list(a), 'b': float(a.dot(q))})
        else:
            w = 10.0 ** R.uniform(-2, 1, size=(2, n))
            if R.rand() < 0.2:
                w[R.randint(2), R.randint(n)] = 0.0
            ps.append({'kind': 'box', 'lo': list(q - w[0]), 'hi': list(q + w[1])})
    k = R.rand()
    if k < 0.15:
        x0 = q + 1e-3 * mg() * R.randn(n)
    elif k < 0.2:
        x0 = q.copy()
    else:
        x0 = q + R.randn(n) * 10.0 ** R.uniform(-2, 2.5)
    tol = float(R.choice([1e-10, 1e-10, 1e-14, 1e-12, 1e-6, 1e-4, 1e-2]))
    mi = int(R.choice([100, 100, 1000, 20, 2, 1]))
    t = R.rand()
    if t < 0.12 and n > 1:          # a fan of half-spaces with nearly parallel normals against one opposite set
        u = R.randn(n)
        u /= np.linalg.norm(u)
        ps = [{'kind': 'half', 'a': list(-u), 'b': float(-u.dot(q))}]
        for j in range(int(R.randint(1, 4))):
            a = u + 10.0 ** R.uniform(-2, 0) * R.randn(n)
            ps.append({'kind': 'half', 'a': list(a), 'b': float(a.dot(q))})
        if R.rand() < 0.5:
            ps = [ps[int(i)] for i in R.permutation(len(ps))]
    elif t < 0.17 and n > 1:        # a staircase: every set moves the point a little further away from the first one
        u, v = np.linalg.qr(R.randn(n, 2))[0].T
        m, ep = 10.0 ** R.uniform(-3, 1), 10.0 ** R.uniform(-3, -1)
        p = int(R.randint(3, 5))
        x0 = R.randn(n)
        q = x0 - u * 0.0 - v * (p * m / ep)
        ps = [{'kind': 'half', 'a': list(-u), 'b': float(-u.dot(x0) + (1e-9 if R.rand() < 0.5 else -0.5) * m)}]
        for j in range(1, p):
            a = u + ep * v
            b = a.dot(x0) - j * m * R.choice([1.0, R.uniform(0.8, 1.2)])
            ps.append({'kind': 'half', 'a': list(a), 'b': float(max(b, a.dot(q) + (1.0 * m)))})
        q = q + u * 0.6 * m
    elif t < 0.22:                  # exact coordinates: everything on a small integer grid, starting point often the origin
        q = R.randint(-2, 3, size=n).astype(float)
        ps = []
        for j in range(p):
            if R.rand() < 0.5:
                d = np.zeros(n)
                d[R.randint(n)] = float(R.choice([-2, -1, 1, 2]))
                ps.append({'kind': 'ball', 'c': list(q + d), 'r': float(abs(d).sum() + R.randint(0, 2))})
            else:
                ps.append({'kind': 'box', 'lo': list(q - R.randint(0, 3, size=n)), 'hi': list(q + R.randint(0, 3, size=n))})
        x0 = np.zeros(n) if R.rand() < 0.5 else R.randint(-4, 5, size=n).astype(float)
    if R.rand() < 0.3:              # tolerance and sweep limit near the values at which the stopping rule decides
        F = [probs.make_proj(v) for v in ps]
        qs = trajectory(F, x0)
        if qs:
            w = [i for i in range(len(qs)) if qs[i][0] > 1e-14]
            if w:
                b = max(w, key=lambda i: qs[i][2] / (len(ps) * qs[i][1])) if R.rand() < 0.7 else w[int(R.randint(len(w)))]
                lo, hi = sorted([qs[b][1], qs[b][0]])
                tol = float(R.choice([lo * 1.0001, math.sqrt(lo * hi), hi * 1.0001, hi * 0.9999]))
                mi = int(R.choice([100, b + 1, b + 2, max(1, b), 1000]))
    return R, n, q, ps, x0, tol, mi


def trajectory(F, x0, its=60):
    """per sweep: sum of the squared moves, the largest one, the squared distance of the result to the farthest set"""
    x, y, out = x0.copy(), np.zeros((len(F), len(x0))), []
    for _ in range(its):
        mv = []
        for i in range(len(F)):
            v = x + y[i]
            x2 = F[i](v)
            mv.append(float(np.sum((x2 - x) ** 2)))
            y[i] = v - x2
            x = x2
        if max(mv) == 0.0:
            break
        out.append((sum(mv), max(mv), max(float(np.sum((f(x) - x) ** 2)) for f in F)))
    return out


def reference(P, x0, its=4000):
    x, y = x0.copy(), np.zeros((len(P), len(x0)))
    sc = 1e-30 * max(1.0, float(np.dot(x0, x0)))
    ok = False
    for n in range(its):
        c = 0.0
        for i in range(len(P)):
            v = x + y[i]
            x2 = P[i](v)
            c += float(np.sum((x2 - x) ** 2))
            y[i] = v - x2
            x = x2
        if c < sc:
            ok = True
            break
    return x, y, ok


def setrec(p):
    return {k: (v if k == 'kind' else encv(v) if isinstance(v, list) else enc(v)) for k, v in p.items()}


def member(p, x):
    if p['kind'] == 'box':
        return bool(np.all(x >= p['lo']) and np.all(x <= p['hi']))
    if p['kind'] == 'ball':
        return bool(np.linalg.norm(x - p['c']) < p['r'] * (1 - 1e-12))
    if p['kind'] == 'half':
        return bool(np.dot(p['a'], x) - p['b'] < -1e-12 * (1 + abs(p['b'])))
    return False


def record(scn):
    R, n, q, ps, x0, tol, mi = case(scn['s'])
    own = R.rand() < 0.5
    P = []
    for p in ps:
        if own and p['kind'] == 'box':
            P.append(lambda x, p=p: util.pbox(x, np.array(p['lo']), np.array(p['hi'])))
        elif own and p['kind'] == 'ball':
            P.append(lambda x, p=p: util.pball(x, np.array(p['c']), p['r']))
        else:
            P.append(probs.make_proj(p))
    log = []
    k = [0]

    def wrap(f):
        def g(x):
            k[0] += 1
            out = f(x)
            log.append(np.array(out, dtype=float))
            if len(log) > len(P) + 1:
                del log[0]
            return out
        return g
    sid = scn['id']
    e = {'id': sid, 'n': n, 'sets': [setrec(p) for p in ps], 'x0': encv(x0), 'tol': enc(tol), 'maxiter': mi, 'status': 'ok', 'x': [],
         'tau': enc(math.sqrt(len(P) * tol) * (1 + 1e-9)), 'inset': [member(p, x0) for p in ps], 'small': tol <= 1e-10, 'path': [], 'calls': 0,
         'near': enc(1e-3 * (1 + 1e-3)), 'eps': enc(1e-7), 'epsg': enc(1e-5), 'hasz': False, 'z': [], 'cert': []}
    mx = max(float(np.max(np.abs(x0))), float(np.max(np.abs(q))), max([p['r'] + float(np.max(np.abs(p['c']))) for p in ps if p['kind'] == 'ball'], default=0.0))
    e['ux'] = enc(1e-13 * max(1.0, mx))
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            with rec.cpu_limit(20.0):
                kw = {}
                if mi != 100 or R.rand() < 0.5:
                    kw['max_iter'] = mi
                if tol != 1e-10 or R.rand() < 0.5:
                    kw['tol'] = tol
                x = util.dykstra([wrap(f) for f in P], x0.copy(), **kw)
            e['x'] = encv(x)
        except rec.Hang:
            e['status'] = 'hang'
        except Exception as ex:
            e['status'] = 'raise ' + type(ex).__name__
        e['calls'] = k[0]
        if len(log) == len(P):
            log.insert(0, x0)
        e['path'] = [encv(v) for v in log]
        if e['status'] == 'ok' and e['small'] and k[0] < mi * len(P):
            z, y, ok = reference([probs.make_proj(p) for p in ps], x0)
            if ok:
                e['hasz'], e['z'] = True, encv(z)
                for p, w in zip(ps, y):
                    c = {'w': encv(w), 'mu': [0, 0], 'nw': enc(np.linalg.norm(w) * (1 + 1e-12))}
                    if p['kind'] in ('half', 'plane'):
                        a = np.array(p['a'])
                        mu = float(np.dot(a, w) / np.dot(a, a))
                        c['mu'] = enc(mu if p['kind'] == 'plane' else max(mu, 0.0))
                    e['cert'].append(c)
    return [e]
