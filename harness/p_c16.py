"""C16: operation histories on the real Model class; the models, Lagrange functions and assembled quadratics are read back."""
import math
import warnings
import numpy as np
from dy import enc, encv, encm
from dfols.model import Model


def scenarios(tier, seed):
    N = 1600 if tier == 'quick' else 200000
    for i in range(N):
        yield {'id': 'C16-%s-%d' % (seed, i), 's': [int(seed), i]}


def record(scn):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return run(scn)


class Case(object):
    def __init__(self, s):
        R = self.R = np.random.RandomState([s[0] % 2 ** 31, s[1], 16])
        n = self.n = int(R.randint(1, 7))
        m = self.m = int(R.randint(1, 7))
        self.npt = int(R.choice([n + 1, n + 1, R.randint(n + 1, 2 * n + 2)]))
        self.base = R.randn(n) * 10.0 ** R.choice([0, 0, 2, 4])
        self.delta = 10.0 ** R.uniform(-4, 1)
        self.spread = R.choice([0, 0, 1, 2, 4])          # decades between the lengths of the directions
        self.far = 10.0 ** R.choice([-1, 0, 0, 1, 3])    # distance of the set from the base, in units of delta
        self.centre = np.zeros(n)
        self.scale = 10.0 ** R.uniform(-3, 4)
        self.kind = str(R.choice(['linear', 'quad', 'random', 'flat']))
        self.A = R.randn(m, n) * 10.0 ** R.uniform(-1, 1, size=(m, 1))
        if R.rand() < 0.2:
            self.A[:, R.randint(n)] = 0.0
        self.b = R.randn(m)
        self.Q = R.randn(m, n, n)
        self.prec = bool(R.rand() < 0.85)

    def r(self, xa):
        z = (xa - self.base) / self.delta
        if self.kind == 'linear':
            v = self.A.dot(z) - self.b
        elif self.kind == 'quad':
            v = self.A.dot(z) - self.b + 0.5 * np.einsum('i,kij,j->k', z, self.Q, z)
        elif self.kind == 'random':
            v = self.R.randn(self.m)
        else:
            v = self.b + 1e-9 * self.A.dot(z)
        return v * self.scale


def run(scn):
    c = Case(scn['s'])
    R, n, m = c.R, c.n, c.m
    big = 1e20 * np.ones(n)
    tight = R.rand() < 0.3
    xl, xu = (c.base - 3 * c.delta, c.base + 3 * c.delta) if tight else (-big, big)
    M = Model(c.npt, c.base.copy(), c.r(c.base), xl, xu, [], 1, n=n, m=m, do_logging=False, precondition=c.prec)
    ev = [{'e': 'new', 'id': scn['id'], 'n': n, 'm': m}]
    en = [1]
    probe = []
    for _ in range(3):
        probe.append(c.base + c.delta * 10.0 ** R.uniform(-1, 2) * R.randn(n))

    def model():
        z = np.zeros(n)
        cc = np.array(M.model_value(z, d_based_at_xopt=False, with_const_term=True)).ravel()
        J = np.array([np.array(M.model_value(np.eye(n)[j], d_based_at_xopt=False)).ravel() for j in range(n)]).T
        return cc, J

    def kappa():
        X = np.array([M.xpt(k) for k in range(M.npt())])
        D = X - M.xopt()
        dist = np.sqrt(np.max(np.sum(D ** 2, axis=1)))
        sc = dist if (c.prec and dist > 0) else 1.0
        W = np.hstack([np.ones((len(X), 1)), D / sc])
        s = np.linalg.svd(W, compute_uv=False)
        kp = s[0] / s[-1] if s[-1] > 0 else math.inf
        # rounding of the coordinates themselves
        return (kp if np.isfinite(kp) else math.inf), sc, W

    def point():
        u = R.randn(n)
        u /= np.linalg.norm(u)
        k = R.rand()
        if k < 0.4:
            u = np.zeros(n)
            u[R.randint(n)] = R.choice([-1.0, 1.0])
        x = (M.xopt() if R.rand() < 0.7 else c.centre * c.delta) + c.delta * 10.0 ** (-c.spread * R.rand()) * u
        if R.rand() < 0.1:
            x = x + c.far * c.delta * R.randn(n)
        return np.minimum(np.maximum(x, M.sl), M.su)

    def snap(e):
        cc, J = model()
        e['cc'], e['J'] = encv(cc), encm(J)
        e['base'] = encv(M.xbase)
        e['kopt'] = int(M.kopt) + 1
        e['x'] = [encv(M.xpt(k)) for k in range(M.npt())]
        g, H = M.build_full_model()
        e['g'], e['H'] = encv(g), encm(H)
    # sometimes the incumbent is moved far away from the base first
    names = ['grow', 'change', 'fit', 'lagr', 'shift', 'swap', 'sample', 'add']
    pr = np.array([3.0, 3, 3, 2, 1.5, 0.7, 0.5, 0.3])
    pr[R.randint(len(pr))] *= R.choice([1, 4])
    pr /= pr.sum()
    ops = [str(o) for o in R.choice(names, size=R.randint(4, 40), p=pr)]
    k = R.rand()
    if k < 0.5:
        ops = ['grow'] * int(R.randint(1, c.npt)) + ['fit', 'lagr'] + ops
    for op in ops:
        K = int(M.npt())
        if op == 'grow' and M.npt_so_far >= M.num_pts:
            op = 'change'
        if op in ('fit', 'lagr') and K < 2:
            continue
        if op == 'add' and K >= 2 * n + 1:
            op = 'change'
        e = {'e': 'op', 'op': op, 'status': 'ok', 'ret': True, 'probe': [encv(p) for p in probe], 'kap': enc(1.0), 'sc': enc(1.0)}
        g0, H0 = M.build_full_model()
        e['g0'], e['H0'] = encv(g0), encm(H0)
        try:
            if op in ('grow', 'change'):
                kk = K if op == 'grow' else int(R.randint(K))
                x = point()
                en[0] += 1
                M.change_point(kk, x, c.r(M.xbase + x), en[0])
            elif op == 'add':
                x = point()
                en[0] += 1
                M.add_new_point(x, c.r(M.xbase + x), en[0])
            elif op == 'sample':
                kk = int(R.randint(K))
                M.add_new_sample(kk, np.array(M.rvec(kk)) + c.scale * 0.1 * R.randn(m))
            elif op == 'swap':
                M.swap_points(int(R.randint(K)), int(R.randint(K)))
            elif op == 'shift':
                s = M.xopt().copy() if R.rand() < 0.6 else c.delta * c.far * R.randn(n)
                M.shift_base(s)
            elif op == 'fit':
                full = bool(K < n + 1 and R.rand() < 0.6)
                kp, sc, W = kappa()
                rr = np.array([M.rvec(k) for k in range(K)])
                exact = True
                e['full'] = full
                frac = 1.0
                if full:
                    ms, mc = 1e-6, 1e8
                    Wr = np.array([M.xpt(k) for k in range(K)]) - M.xopt()
                    s = np.linalg.svd(np.linalg.lstsq(np.hstack([np.ones((K, 1)), Wr]) if not c.prec else W, rr, rcond=None)[0][1:, :] / (sc if c.prec else 1.0),
                                      compute_uv=False)
                    r = min(K - 1, n, m)
                    exact = bool(s[r - 1] >= 10 * max(s[0] / mc, ms) and s[r - 1] > 1e-4 * s[0])
                    ok = M.interpolate_mini_models_svd(make_full_rank=True, min_sing_val=ms, sing_val_frac=frac, max_jac_cond=mc)[0]
                else:
                    ok = M.interpolate_mini_models_svd(verbose=bool(R.rand() < 0.3))[0]
                e.update(ret=bool(ok), kap=enc(1.01 * kp), sc=enc(sc), exact=exact, finite=bool(np.all(np.isfinite(rr))), r=encm(rr))
            elif op == 'lagr':
                kp, sc, W = kappa()
                e.update(kap=enc(1.01 * kp), sc=enc(sc), one=0, c1=enc(0.0), g1=[], lc=[], lg=[])
                try:
                    cs, gs = M.lagrange_gradient()
                    e.update(lc=encv(cs), lg=encm(np.array(gs).T))
                    if R.rand() < 0.5:
                        j = int(R.randint(K))
                        c1, g1 = M.lagrange_gradient(j)
                        e.update(one=j + 1, c1=enc(c1), g1=encv(g1))
                    e['ret'] = bool(np.all(np.isfinite(cs)) and np.all(np.isfinite(gs)))
                except np.linalg.LinAlgError:
                    e['ret'] = False
            snap(e)
        except Exception as ex:
            e['status'] = 'raise ' + type(ex).__name__ + str(ex)[:80]
            ev.append(e)
            break
        ev.append(e)
    return ev
