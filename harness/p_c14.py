"""C14: the first npt evaluations of real runs with maxfun = npt, and the random direction generators."""
import math
import warnings
import numpy as np
from dy import enc, encv, encm
import gen
import rec
import dfols
from dfols import util

OP12, P01 = enc(1.0 + 1e-12), enc(0.01)


def scenarios(tier, seed):
    N = 16000 if tier == 'quick' else 1000000
    for i in range(N):
        sid = 'C14-%s-%d' % (seed, i)
        k = i % 12
        if k == 11:
            yield {'id': sid, 'kind': 'run', 'run': gen.run_scenario('C14r', seed, i, proj=0.0, h=0.0, fault=0.0, randinit=0.6, growing=0.6,
                                                                      regr=0.4, restarts=0.8)}
        elif k >= 6:
            yield {'id': sid, 'kind': 'dirs', 's': [int(seed), i]}
        else:
            yield {'id': sid, 'kind': 'init', 's': [int(seed), i]}


def place(R, lo, gap, rb):
    """a coordinate of x0 relative to a box side [lo, lo + gap]"""
    k = R.randint(11)
    hi = lo + gap
    side = R.choice([-1, 1])
    near, s = (lo, 1.0) if side < 0 else (hi, -1.0)
    if k == 0:
        v = near
    elif k == 1:
        v = near + s * rb * 10.0 ** R.uniform(-16, -3)
    elif k == 2:
        v = near + s * rb * 0.01 * R.choice([0.5, 0.99, 1.0, 1.01, 1.5])
    elif k == 3:
        v = near + s * rb * R.uniform(0.01, 1.0)
    elif k == 4:
        v = near + s * rb * R.uniform(0.9, 1.1)
    elif k == 5:
        v = near + s * rb * R.uniform(1, 2.2)
    elif k == 6:
        v = near - s * rb * 10.0 ** R.uniform(-16, 1)      # infeasible
    elif k == 7:
        v = np.nextafter(near, near + s)
    elif k == 8:
        v = np.nextafter(near, near - s)
    else:
        v = lo + gap * R.rand()
    return float(v)


def init_case(s):
    R = np.random.RandomState([s[0] % 2 ** 31, s[1], 15])
    n = int(R.choice([1, 2, 3, 4, 5, 6, 8], p=[.15, .25, .2, .15, .1, .1, .05]))
    npt = int(R.choice([n + 1, 2 * n + 1, R.randint(n + 1, 2 * n + 2)]))
    scaling = R.rand() < 0.25
    rb = float(10.0 ** R.uniform(-3, 2)) if R.rand() < 0.6 else float(R.choice([1.0, 0.1, 0.5]))
    if scaling:
        rb = float(R.choice([0.1, 0.05, 0.3, 0.5]))
    lo, hi, x0 = [], [], []
    for i in range(n):
        b = float(R.choice([0.0, 1.0, -1.0, R.randn() * 10.0 ** R.uniform(-1, 1)]))
        if scaling:
            gap = float(10.0 ** R.uniform(-2, 3))
            r = rb * gap
        else:
            r = rb
            gap = rb * float(R.choice([2.0, 2.0 + 1e-9, 2.01, 2.5, 3.0, 4.0, 100.0]))
            if gap == 2.0 * rb:
                gap *= 1 + 1e-15
            b = b * (1.0 if R.rand() < 0.7 else rb)
        l, h = b, b + gap
        while not scaling and h - l < 2.0 * rb:
            h = np.nextafter(h, np.inf)
        v = place(R, l, h - l, r)
        k = R.rand()
        if not scaling and k < 0.15:
            l = -1e20
        elif not scaling and k < 0.3:
            h = 1e20
        lo.append(float(l)), hi.append(float(h)), x0.append(v)
    return R, n, npt, scaling, rb, np.array(lo), np.array(hi), np.array(x0)


def record_init(scn):
    R, n, npt, scaling, rb, lo, hi, x0 = init_case(scn['s'])
    sid = scn['id']
    w = hi - lo if scaling else np.ones(n)
    xp = np.minimum(np.maximum(x0, lo), hi)
    scal_b = scaling or R.rand() < 0.8 or np.any(lo > -1e19) or np.any(hi < 1e19)
    mx = max([1e-300] + [abs(float(t)) for v in (xp, lo, hi) for t in v if abs(t) < 1e19]) if not scaling else max(np.max(np.abs(lo)), np.max(np.abs(hi)))
    mx = max(mx, rb)
    ev = [{'e': 'start', 'id': sid, 'n': n, 'npt': npt, 'lo': encv(lo), 'hi': encv(hi), 'x0': encv(x0), 'rhobeg': enc(rb), 'w': encv(w),
           'scaled': bool(scaling), 'maxabs': enc(mx), 'p01': P01}]
    m = int(R.randint(1, n + 3))
    Z = []

    def obj(x):
        x = np.array(x, dtype=float)
        z = (x - xp) / w
        if len(Z) < 60:
            ev.append({'e': 'eval', 'x': encv(x), 'z': encv(z)})
        Z.append(z)
        return 1.0 + 10.0 * R.rand(m)
    kw = {}
    if scaling:
        kw['scaling_within_bounds'] = True
    if R.rand() < 0.5:
        kw['user_params'] = {'init.random_initial_directions': False}
    if scal_b:
        kw['bounds'] = (lo.copy(), hi.copy())
    end = {'e': 'end', 'status': 'ok', 'u': [], 'v': []}
    try:
        with rec.cpu_limit(20.0):
            s = dfols.solve(obj, x0.copy(), npt=npt, maxfun=npt, rhobeg=rb, rhoend=rb * 1e-6, do_logging=False, **kw)
        if s.flag == s.EXIT_INPUT_ERROR:
            return []
    except rec.Hang:
        end['status'] = 'hang'
    except Exception as ex:
        end['status'] = 'raise ' + type(ex).__name__
    if len(Z) >= npt:
        W = np.array(Z[1:npt])
        if np.all(np.isfinite(W)):
            U, S, Vt = np.linalg.svd(W)
            end['u'], end['v'] = encv(Vt[0]), encv(Vt[-1])
    ev.append(end)
    return ev


def dirs_event(sid, n, want, delta, lo, hi, f):
    e = {'e': 'dirs', 'id': sid, 'n': n, 'want': int(want), 'delta': enc(delta), 'lo': encv(lo), 'hi': encv(hi), 'op12': OP12, 'status': 'ok', 'd': []}
    out = None
    try:
        out = f()
        e['d'] = encm(out)
    except Exception as ex:
        e['status'] = 'raise ' + type(ex).__name__
    return e, out


def record_dirs(scn):
    s = scn['s']
    R = np.random.RandomState([s[0] % 2 ** 31, s[1], 16])
    n = int(R.choice([1, 2, 3, 4, 5, 6, 8]))
    delta = float(10.0 ** R.uniform(-6, 2))
    lo, hi = np.zeros(n), np.zeros(n)
    pat = R.choice(['mix', 'corner', 'free', 'hair'])
    for i in range(n):
        while not hi[i] > lo[i]:
            for (v, sg) in ((lo, -1.0), (hi, 1.0)):
                k = R.randint(6)
                if pat == 'corner':
                    k = R.choice([0, 0, 3])
                elif pat == 'free':
                    k = 5
                elif pat == 'hair':
                    k = R.choice([0, 1])
                v[i] = 0.0 if k == 0 else sg * delta * 10.0 ** R.uniform(-15, -2) if k == 1 else sg * delta * R.uniform(0.01, 1.0) if k == 2 \
                    else sg * delta * R.uniform(0.5, 2.0) if k == 3 else sg * delta * 10.0 ** R.uniform(0, 4) if k == 4 else sg * 1e20
            if hi[i] == 0.0 and R.rand() < 0.1:
                hi[i] = delta
    out = []
    np.random.seed([s[0] % 2 ** 31, s[1]])
    for nm in ('orthog', 'orthogneg', 'plain'):
        want = int(R.choice([1, n, 2 * n, 2 * n + 1, R.randint(1, 3 * n + 3)]))
        if nm == 'plain':
            f = lambda: util.random_directions_within_bounds(want, delta, lo.copy(), hi.copy())
        else:
            f = lambda: util.random_orthog_directions_within_bounds(want, delta, lo.copy(), hi.copy(), with_neg_dirns=(nm == 'orthogneg'))
        out.append(dirs_event(scn['id'], n, want, delta, lo, hi, f)[0])
    return out


def record_run(sid, run):
    import dfols.controller as C
    out = []
    saved = {}

    def spy(name):
        if not hasattr(C, name):
            return
        real = saved[name] = getattr(C, name)

        def f(num, delta, lo, hi, *a, **k):
            if len(out) < 60:
                e, r = dirs_event(sid, len(lo), num, delta, lo, hi, lambda: real(num, delta, lo, hi, *a, **k))
                # a point a rounding error outside a bound: judged against the nearest interval containing zero
                e['lo'], e['hi'] = encv(np.minimum(lo, 0.0)), encv(np.maximum(hi, 0.0))
                out.append(e)
                if r is not None:
                    return r
            return real(num, delta, lo, hi, *a, **k)
        setattr(C, name, f)
    spy('random_orthog_directions_within_bounds')
    spy('random_directions_within_bounds')
    try:
        rec.run(run)
    finally:
        for k, v in saved.items():
            setattr(C, k, v)
    return out


def record(scn):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        if scn['kind'] == 'init':
            return record_init(scn)
        if scn['kind'] == 'dirs':
            return record_dirs(scn)
        return record_run(scn['id'], scn['run'])
