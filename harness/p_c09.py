"""C09: runs with projection operators; the projection routine is observed where the package uses it."""
import math
import numpy as np
from dy import enc, encv
import gen
import probs
import rec
from p_c15 import setrec


def scenarios(tier, seed):
    N = 1500 if tier == 'quick' else 100000
    for i in range(N):
        s = gen.run_scenario('C09', seed, i, proj=1.0, h=0.12, fault=0.05, scaling=0.0, restarts=0.5, nsamp=0.1, growing=0.1, randinit=0.1)
        if i % 2:
            s.setdefault('params', {})['dykstra.max_iters'] = [1000, 300][i % 4 // 2]
            if i % 6 == 1:
                s['params']['dykstra.d_tol'] = 1e-14
        s['opts']['maxfun'] = min(s['opts']['maxfun'], 40)
        yield s


class Spy(object):
    """wraps the projection routine in every module of the package that refers to it"""
    def __init__(self, nsets):
        self.nsets = nsets
        self.outs = {}
        self.saved = []

    def wrap(self, real):
        def f(P, x0, *a, **k):
            if len(P) != self.nsets:
                return real(P, x0, *a, **k)
            cnt = [0]

            def w(g):
                def h(x):
                    cnt[0] += 1
                    return g(x)
                return h
            out = real([w(g) for g in P], x0, *a, **k)
            mi = a[0] if len(a) > 0 else k.get('max_iter', 100)
            rule = cnt[0] % len(P) == 0 and cnt[0] < mi * len(P)
            try:
                key = np.array(out, dtype=float).tobytes()
                self.outs[key] = 'rule' if rule else 'cap' if self.outs.get(key) != 'rule' else 'rule'
            except Exception:
                pass
            return out
        return f

    def __enter__(self):
        import dfols.util, dfols.model, dfols.controller, dfols.solver, dfols.trust_region
        for m in (dfols.util, dfols.model, dfols.controller, dfols.solver, dfols.trust_region):
            if hasattr(m, 'dykstra'):
                self.saved.append((m, m.dykstra))
                m.dykstra = self.wrap(m.dykstra)
        return self

    def __exit__(self, *a):
        for m, f in self.saved:
            m.dykstra = f


def record(scn):
    tol = (scn.get('params') or {}).get('dykstra.d_tol', 1e-10)
    sets = scn['proj']
    mx = [abs(t) for p in sets for key in ('c', 'lo', 'hi') for t in p.get(key, [])] + [p['r'] for p in sets if 'r' in p] + [abs(t) for t in scn['x0']]

    def on_start(st, P):
        st['sets'] = [setrec(p) for p in sets]      # the bound box is judged exactly
        st['tau'] = enc(math.sqrt((len(sets) + 1) * tol) * (1 + 1e-9))
        st['ptol'] = enc(1e-12 * max(1.0, max(mx)))
    with Spy(len(sets) + 1) as spy:
        def on_eval(e, x):
            key = x.tobytes()
            e['out'] = spy.outs.get(key, 'none' if spy.outs else 'unseen')
            if e['out'] == 'none' and np.array(x + 0.0).tobytes() in spy.outs:
                e['out'] = spy.outs[np.array(x + 0.0).tobytes()]
            if e['out'] == 'none':    # an output, up to rounding of the base-point arithmetic
                for o, kind in spy.outs.items():
                    if np.max(np.abs(np.frombuffer(o) - x)) <= 2e-15 * max(1.0, max(mx)):
                        e['out'] = kind
        ev, soln, P = rec.run(scn, on_start=on_start, on_eval=on_eval)
    return ev
