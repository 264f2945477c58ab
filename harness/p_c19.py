"""C19: the same call several times - other random generator states, other histories, another process - and the caller's data throughout."""
import atexit
import copy
import json
import os
import subprocess
import sys
import warnings

import numpy as np

import gen
import rec
import dfols

KINDS = ['default', 'bounded', 'scaled', 'proj', 'regr', 'reg', 'restart', 'script', 'noisy', 'big', 'random']


def scenarios(tier, seed):
    n = 2500 if tier == 'quick' else 100000
    for i in range(n):
        kind = KINDS[i % len(KINDS)]
        o = dict(randinit=0.0, growing=0.0, h=0.0, proj=0.0, fault=0.03, diag=0.3, budget=['tiny', 'small', 'mid', 'mid', 'big'], n=[1, 2, 2, 3, 3, 4, 5])
        o.update({'default': dict(bkind='none', restarts=0.0, npt=0.0, regr=0.0, nsamp=0.0, slow=0.0, themes=0.0), 'bounded': dict(bkind='both', scaling=0.0),
                  'scaled': dict(scaling=1.0), 'proj': dict(proj=1.0, scaling=0.0), 'regr': dict(npt=1.0, regr=0.4), 'reg': dict(h=1.0), 'restart': dict(restarts=1.0),
                  'script': dict(script=1.0), 'noisy': dict(noisefn=1.0, script=0.0, nsamp=0.5), 'big': dict(n=[5, 6, 8], budget=['mid', 'big']),
                  'random': dict(randinit=0.5, growing=0.6, regr=0.3)}[kind])
        s = gen.run_scenario('C19', seed, i, **o)
        p = s.get('params') or {}
        if kind != 'random':
            p.pop('regression.momentum_extra_steps', None)
            for k in [k for k in p if k.startswith('restarts.increase_npt') or k == 'restarts.max_npt' or k.startswith('growing.ndirs')]:
                p.pop(k)
        s['kind'] = kind
        s.pop('progress', None)
        s['form'] = ['plain', 'view', 'int', 'readonly', 'fortran'][i % 5]
        yield s


def hexv(v):
    return ','.join(float(t).hex() for t in np.ravel(np.asarray(v, dtype=float)))


def text(v):
    """exact text of anything"""
    if v is None:
        return 'None'
    if isinstance(v, (float, np.floating)):
        return type(v).__name__ + ':' + float(v).hex()
    if isinstance(v, np.ndarray):
        return 'array%s%s:' % (v.shape, v.dtype) + (hexv(v) if v.dtype.kind == 'f' else str(v.tolist()))
    if isinstance(v, (list, tuple)):
        return type(v).__name__ + '[' + ';'.join(text(t) for t in v) + ']'
    if isinstance(v, dict):
        return 'dict{' + ';'.join(text(k) + '=' + text(t) for k, t in v.items()) + '}'
    return type(v).__name__ + ':' + str(v)


def result(s):
    d = {'strs': str(s)}
    for k, v in sorted(vars(s).items()):
        if k == 'diagnostic_info' and v is not None:
            d[k] = ';'.join('%s=%s' % (c, text(list(v[c]))) for c in v.columns)
        else:
            d[k] = text(v)
    return d


class Args(object):
    """The caller's arguments, kept over all the runs of a scenario, in memory layouts that would show any write"""
    def __init__(self, scn):
        P = rec.Prepared(scn)
        form = scn.get('form', 'plain')
        self.buf = {}

        def lay(name, v):
            if v is None:
                return None
            if form == 'int' and name == 'x0' and np.all(np.abs(v) < 1e6):
                w = np.round(v).astype(int)
                lo, hi = P.lo_full, P.hi_full
                if not np.all((w >= lo) & (w <= hi)):
                    w = v.copy()
                self.buf[name] = w
                return w
            if form in ('view', 'fortran'):
                b = np.full((3 * len(v), 2), 7.25, order='F' if form == 'fortran' else 'C')
                b[1:1 + 2 * len(v):2, 1] = v
                self.buf[name] = b
                return b[1:1 + 2 * len(v):2, 1]
            w = v.copy()
            if form == 'readonly':
                w.setflags(write=False)
            self.buf[name] = w
            return w
        self.x0 = lay('x0', P.x0)
        self.kw = dict(P.kw)
        if 'bounds' in self.kw:
            b = self.kw['bounds']
            self.kw['bounds'] = (lay('lo', b[0]), lay('hi', b[1]))
        self.params = self.kw.get('user_params')
        self.before = self.state()

    def state(self):
        d = {k: text(v) for k, v in self.buf.items()}
        d['params'] = text(self.params)
        return d

    def changed(self):
        s = self.state()
        return [k for k in s if s[k] != self.before[k]]


def one(scn, A, rng, noise_rng):
    """one run of the scenario; A: the caller's argument objects"""
    P = rec.Prepared(scn)  # fresh residual function (some have a memory)
    kw = dict(A.kw)
    ev = []
    if P.nsamp is not None:
        kw['nsamples'] = P.nsamp

    def obj(x):
        xx = np.array(x, dtype=float)
        e = {'e': 'eval', 'x': hexv(xx), 'r': '', 'chg': A.changed()}
        ev.append(e)
        if noise_rng:
            np.random.random(3)  # the caller's function may use the generator for other things
        r = P.f(xx.copy())
        e['r'] = hexv(r)
        return np.array(r)
    np.random.seed(rng)
    end = {'e': 'end', 'status': 'ok', 'exc': '', 'res': {'none': ''}}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                with rec.cpu_limit(20.0):
                    s = dfols.solve(obj, A.x0, **kw)
        end['res'] = result(s)
    except rec.Hang:
        end['status'] = 'hang'
    except BaseException as ex:
        if not isinstance(ex, Exception) and not (P.faulty is not None and P.faulty.raised is ex):
            raise
        end['status'] = 'raise'
        end['exc'] = type(ex).__name__ + ': ' + str(ex)[:200]
    end['chg'] = A.changed()
    return ev + [end]


HELPER = []


def helper(scn):
    """the same call in another process (other hash seed, other generator state, other history)"""
    if not HELPER:
        env = dict(os.environ, PYTHONHASHSEED='12345', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONPATH=os.path.dirname(os.path.abspath(__file__)) + os.pathsep + os.path.dirname(os.path.dirname(os.path.abspath(dfols.__file__))))
        p = subprocess.Popen([sys.executable, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True)
        HELPER.append(p)
        atexit.register(p.kill)
    p = HELPER[0]
    p.stdin.write(json.dumps(scn) + '\n')
    p.stdin.flush()
    return json.loads(p.stdout.readline())


def record(scn):
    A = Args(scn)
    P = rec.Prepared(scn)
    rnd = bool(rec.uses_random(scn, P))
    out = []

    def add(k, why, evs):
        b = {'e': 'begin', 'id': scn['id'], 'k': k, 'why': why, 'random': rnd}
        out.extend([b] + evs)
        return evs[-1]['status'] != 'hang'
    s = scn.get('seed', 0)
    if not add(1, 'first', one(scn, A, s, False)):
        return []
    runs = [('rng', lambda: one(scn, A, s + 1, True)), ('again', lambda: one(scn, A, s, False))]
    if not rnd:
        runs.append(('process', lambda: helper(scn)))
    for k, (why, f) in enumerate(runs):
        evs = f()
        if evs[-1]['status'] == 'hang':
            break
        add(k + 2, why, evs)
    return out


def serve():
    seen = 0
    for line in sys.stdin:
        scn = json.loads(line)
        seen += 1
        sys.stdout.write(json.dumps(one(scn, Args(scn), 987654 + seen, True)) + '\n')
        sys.stdout.flush()


if __name__ == '__main__':
    serve()
