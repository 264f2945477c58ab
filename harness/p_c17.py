"""C17: sequences of operations on the real Model class; the store is read back after every operation."""
import math
import warnings
import numpy as np
from dy import enc, encv, encm
import probs
import rec
from dfols.model import Model
from dfols.util import remove_scaling


def scenarios(tier, seed):
    N = 7000 if tier == 'quick' else 200000
    for i in range(N):
        yield {'id': 'C17-%s-%d' % (seed, i), 's': [int(seed), i]}


class Case(object):
    def __init__(self, s):
        R = self.R = np.random.RandomState([s[0] % 2 ** 31, s[1], 18])
        self.fam = str(R.choice(['std', 'long', 'large'], p=[0.88, 0.05, 0.07]))
        n = self.n = int(R.choice({'std': [1, 2, 3], 'long': [1, 2], 'large': [4, 5, 6]}[self.fam]))
        m = self.m = int(R.choice({'std': [1, 2, 3], 'long': [1, 2], 'large': [1, 4, 8]}[self.fam]))
        self.npt = int(R.randint(n + 1, 2 * n + 2))
        self.x0 = R.randn(n) * 10.0 ** R.uniform(-1, 3)
        self.rad = 10.0 ** R.uniform(-2, 1)
        self.xl = np.where(R.rand(n) < 0.5, self.x0 - self.rad * R.rand(n) * 2, -1e20)
        self.xu = np.where(R.rand(n) < 0.5, self.x0 + self.rad * R.rand(n) * 2, 1e20)
        self.scaling = None
        if R.rand() < 0.2:
            sh, sc = R.randn(n), 10.0 ** R.uniform(-1, 1, size=n)
            self.scaling = (sh, sc)
        self.h = None
        self.lh = 0.0
        if R.rand() < 0.4:
            self.h, self.lh, _ = probs.make_h({'kind': str(R.choice(['l1', 'l2', 'linf'])), 'lam': float(10.0 ** R.uniform(-1, 1)), 'n': n})
        # extra arguments of h (with a default value, so that forgetting them does not raise)
        R2 = np.random.RandomState([s[0] % 2 ** 31, s[1], 181])
        self.argsh = ()
        if self.h is not None and R2.rand() < 0.5:
            h0, self.argsh = self.h, (float(R2.choice([0.25, 3.0])),)
            self.lh *= self.argsh[0]
            self.hmodel = lambda x, w=1.0: w * h0(x)
            self.h = lambda x: self.argsh[0] * h0(x)
        else:
            self.hmodel = self.h
        self.proj, self.psets = [], []
        if self.scaling is None and R2.rand() < 0.15:
            # convex sets around x0, the bound box last (as solve does)
            u = R2.randn(n)
            u /= np.linalg.norm(u)
            sets = [{'kind': 'ball', 'c': list(self.x0 + 0.3 * self.rad * u), 'r': self.rad}]
            if R2.rand() < 0.5:
                sets.append({'kind': 'half', 'a': list(u), 'b': float(u.dot(self.x0) + 0.2 * self.rad)})
            xl, xu = self.xl, self.xu
            self.proj = [probs.make_proj(t) for t in sets] + [lambda x: np.minimum(np.maximum(x, xl), xu)]
            self.xl, self.xu = np.full(n, -1e20), np.full(n, 1e20)
        # the palette of residual values: few distinct ones give ties
        self.pal = R.choice(['ties', 'mixed', 'bad', 'plain'])
        self.ev = 1
        self.ns0 = int(R.choice([1, 1, 2, 3]))

    def resid(self):
        R = self.R
        k = R.rand()
        if self.pal == 'ties':
            r = R.choice([0.0, 1.0, -1.0, 2.0], size=self.m)
        elif self.pal == 'plain':
            r = R.randn(self.m) * 10.0 ** R.uniform(-3, 3)
        else:
            r = R.randn(self.m)
            p = 0.5 if self.pal == 'bad' else 0.15
            if R.rand() < p:
                v = R.choice([math.nan, math.nan, math.inf, -math.inf, 1e200, 1e154, 1e300])
                if R.rand() < 0.5:
                    r[R.randint(self.m)] = v
                else:
                    r[:] = v
        return np.array(r, dtype=float)


def record(scn):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return run(scn)


def run(scn):
    c = Case(scn['s'])
    R, n, m = c.R, c.n, c.m
    r0 = c.resid()
    M = Model(c.npt, c.x0.copy(), r0.copy(), c.xl.copy(), c.xu.copy(), list(c.proj), c.ns0, h=c.hmodel, argsh=c.argsh, n=n, m=m, do_logging=False,
              scaling_changes=c.scaling, x0_eval_num=c.ev)
    mx = float(np.max(np.abs(c.x0))) + 20 * c.rad
    ux = 2.0 ** -46 * mx
    lh = c.lh * math.sqrt(n) * (float(np.max(c.scaling[1])) if c.scaling else 1.0)
    mxs = mx if not c.scaling else mx * float(np.max(c.scaling[1])) + float(np.max(np.abs(c.scaling[0])))
    ev = [{'e': 'new', 'id': scn['id'], 'n': n, 'm': m, 'x': encv(c.x0), 'r': encv(r0), 'ns': c.ns0, 'ev': 1, 'ux': enc(ux),
           'hslack': enc(c.lh * math.sqrt(n) * 2.0 ** -40 * max(mxs, 1.0) if c.h else 0.0), 'obs': None}]

    def hval(x):
        return 0.0 if c.h is None else float(c.h(remove_scaling(x, c.scaling)))

    def sumsq(r):
        return float(np.dot(r, r))

    def obs():
        K = int(M.npt())
        X = [np.array(M.xpt(k, abs_coordinates=True)) for k in range(K)]
        return {'npt': K, 'x': [encv(x) for x in X], 'r': [encv(M.rvec(k)) for k in range(K)],
                'obj': [enc(M.objval[k]) for k in range(K)], 'hv': [enc(hval(x)) for x in X], 'ns': [int(M.nsamples[k]) for k in range(K)],
                'ev': [int(M.eval_num[k]) for k in range(K)], 'kopt': int(M.kopt) + 1}

    def final():
        f = M.get_final_results()
        return {'x': encv(f[0]), 'r': encv(f[1]), 'obj': enc(f[2]), 'ns': int(f[4]), 'ev': int(f[5])}
    ev[0]['obs'] = obs()

    def point():
        """a point relative to the base, inside the bounds"""
        k = R.rand()
        if k < 0.15 and M.npt() > 1:      # an existing point
            return M.xpt(int(R.randint(M.npt())))
        a = c.x0 + c.rad * R.uniform(-1, 1, size=n)
        a = np.minimum(np.maximum(a, c.xl), c.xu)
        x = np.minimum(np.maximum(a - M.xbase, M.sl), M.su)
        return M.as_absolute_coordinates(x) - M.xbase if c.proj else x
    nops = int(R.randint(3, 31)) if c.fam == 'std' else int(R.randint(5, 20)) if c.fam == 'large' else int(R.randint(60, 360))
    w = dict(change=5, sample=3, add=1, swap=2, shift=1.5, save=1.5)
    if c.fam == 'long':   # hundreds of samples of the same points
        w = dict(change=0.3, sample=100, add=0.1, swap=1, shift=1, save=0.5)
    elif R.rand() < 0.3:
        w[str(R.choice(list(w)))] *= 6
    names = sorted(w)
    pr = np.array([w[k] for k in names])
    for _ in range(nops):
        op = str(R.choice(names, p=pr / pr.sum()))
        K = int(M.npt())
        e = {'e': 'op', 'op': op, 'status': 'ok', 'k': 0, 'k2': 0, 'x': [], 'r': [], 'ev': 0, 'ns': 0, 'allow': True, 'sobj': [7, 0]}
        if op == 'add' and K >= (16 if c.fam == 'large' else 8):
            op = e['op'] = 'change'
        try:
            if op == 'change':
                grow = M.npt_so_far < M.num_pts
                k = int(R.randint(K + (3 if grow else 0)))
                k = min(k, K) if grow else k
                if R.rand() < 0.25:
                    k = int(M.kopt)
                x, r = point(), c.resid()
                c.ev += 1
                allow = bool(R.rand() < 0.93)
                e.update(k=k + 1, x=encv(x), r=encv(r), ev=c.ev, allow=allow)
                if allow:
                    M.change_point(k, x.copy(), r.copy(), c.ev)
                else:
                    M.change_point(k, x.copy(), r.copy(), c.ev, allow_kopt_update=False)
            elif op == 'sample':
                k = int(M.kopt) if R.rand() < 0.4 else int(R.randint(K))
                if c.fam == 'long' and R.rand() < 0.8:
                    k = K - 1
                r = c.resid()
                e.update(k=k + 1, r=encv(r))
                M.add_new_sample(k, r.copy())
            elif op == 'add':
                x, r = point(), c.resid()
                c.ev += 1
                e.update(x=encv(x), r=encv(r), ev=c.ev)
                M.add_new_point(x.copy(), r.copy(), c.ev)
            elif op == 'swap':
                k, k2 = int(R.randint(K)), int(R.randint(K))
                e.update(k=k + 1, k2=k2 + 1)
                M.swap_points(k, k2)
            elif op == 'shift':
                s = M.xopt() if R.rand() < 0.7 else point() * R.rand()
                s = s.copy()
                e.update(x=encv(s))
                M.shift_base(s.copy())
            elif op == 'save':
                k = R.rand()
                if k < 0.5:
                    j = int(R.randint(K))
                    x, r, ns, en = M.xpt(j, abs_coordinates=True), M.rvec(j).copy(), int(M.nsamples[j]), int(M.eval_num[j])
                    ab = True
                else:
                    x, r, ns = point(), c.resid(), int(R.randint(1, 4))
                    c.ev += 1
                    en = c.ev
                    ab = bool(R.rand() < 0.5)
                    if ab:
                        x = M.as_absolute_coordinates(x)
                xa = x if ab else M.as_absolute_coordinates(x)
                e.update(x=encv(xa), r=encv(r), ns=ns, ev=en, sobj=enc(sumsq(r) + hval(xa)))
                M.save_point(x.copy(), r.copy(), ns, en, x_in_abs_coords=ab)
            e['obs'] = obs()
            e['fin'] = final()
        except Exception as ex:
            e['status'] = 'raise ' + type(ex).__name__ + str(ex)[:80]
            e['obs'] = {'npt': 0, 'kopt': 0, 'x': [], 'r': [], 'obj': [], 'hv': [], 'ns': [], 'ev': []}
            ev.append(e)
            break
        ev.append(e)
    return ev
