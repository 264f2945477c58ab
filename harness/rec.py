"""Runs the real dfols.solve on a scenario (plain JSON data) and records everything that is observable from outside:
every residual call (bits of x, residuals), the solver's own log, every sampling request, the returned object."""
import contextlib
import io
import logging
import math
import re
import signal
import sys
import warnings

import numpy as np

from dy import enc, encv, encm
import probs

import dfols

DEFAULTS = {'model.abs_tol': 1e-12, 'model.rel_tol': 1e-20, 'restarts.max_unsuccessful_restarts': 10,
            'restarts.rhoend_scale': 1.0, 'restarts.use_soft_restarts': True, 'growing.reset_rho': False,
            'growing.reset_delta': False, 'restarts.increase_npt': False, 'interpolation.throw_error_on_nans': False}
FLAGS = {'EXIT_SUCCESS': 0, 'EXIT_MAXFUN_WARNING': 1, 'EXIT_SLOW_WARNING': 2, 'EXIT_FALSE_SUCCESS_WARNING': 3,
         'EXIT_TR_INCREASE_WARNING': 5, 'EXIT_INPUT_ERROR': -1, 'EXIT_TR_INCREASE_ERROR': -2, 'EXIT_LINALG_ERROR': -3,
         'EXIT_EVAL_ERROR': -4}


class Hang(BaseException):
    pass


def _alarm(sig, frm):
    raise Hang()


class la_fault(object):
    """the k-th calls of a scipy.linalg routine report a singular matrix"""
    def __init__(self, spec):
        self.spec = spec

    def __enter__(self):
        if self.spec is None:
            return
        import scipy.linalg as LA
        self.orig = orig = getattr(LA, self.spec['fn'])
        at, cnt = set(self.spec['at']), [0]

        def f(*a, **k):
            cnt[0] += 1
            if cnt[0] in at:
                raise LA.LinAlgError('injected: singular matrix')
            return orig(*a, **k)
        setattr(LA, self.spec['fn'], f)

    def __exit__(self, *a):
        if self.spec is not None:
            import scipy.linalg as LA
            setattr(LA, self.spec['fn'], self.orig)
        return False


class cpu_limit(object):
    def __init__(self, secs):
        self.secs = secs

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.secs)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return False


LOGRE = re.compile(r'^Function eval (\d+) at point (\d+) has obj = (\S+) at x')


class LogTap(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, level=logging.INFO)
        self.cb = None

    def emit(self, record):
        if self.cb is not None:
            self.cb(record.getMessage())


TAP = LogTap()
_lg = logging.getLogger('dfols')
_lg.setLevel(logging.INFO)
_lg.propagate = False
_lg.addHandler(TAP)


def arr(v):
    """JSON list (may contain strings inf/-inf/nan) -> float array"""
    return None if v is None else np.array([float(t) for t in v], dtype=float)


def par(scn, key):
    p = scn.get('params') or {}
    if key in p:
        return p[key]
    if key == 'restarts.use_restarts':
        return bool(scn.get('opts', {}).get('noise', False))
    return DEFAULTS[key]


class Prepared(object):
    """Everything needed to call dfols.solve for a scenario"""
    def __init__(self, scn):
        self.scn = scn
        o = scn.get('opts', {})
        pr = scn['prob']
        if pr['kind'] == 'script':
            f = probs.Script(pr)
        else:
            f = probs.make_resid(pr)
        if 'noisefn' in scn:
            f = probs.Noise(f, scn['noisefn'])
        self.faulty = None
        if 'fault' in scn:
            f = self.faulty = probs.Faulty(f, scn['fault'])
        self.f = f
        self.x0 = arr(scn['x0'])
        self.lo, self.hi = arr(scn.get('lo')), arr(scn.get('hi'))
        kw = {}
        if self.lo is not None or self.hi is not None:
            kw['bounds'] = (None if self.lo is None else self.lo.copy(), None if self.hi is None else self.hi.copy())
        for (k, name) in [('npt', 'npt'), ('rhobeg', 'rhobeg'), ('rhoend', 'rhoend'), ('maxfun', 'maxfun')]:
            if o.get(k) is not None:
                kw[name] = o[k]
        if o.get('scaling'):
            kw['scaling_within_bounds'] = True
        if o.get('noise'):
            kw['objfun_has_noise'] = True
        kw['do_logging'] = scn.get('dolog', True)
        if scn.get('params'):
            kw['user_params'] = dict(scn['params'])
        self.h = None
        if 'h' in scn:
            self.h, lh, prox = probs.make_h(scn['h'])
            kw['h'], kw['lh'], kw['prox_uh'] = self.h, lh, prox
            wt = scn['h'].get('wt')
            if wt is not None:  # extra arguments, with default values
                h0, prox0 = self.h, prox
                self.h = lambda x: wt * h0(x)
                kw['h'] = lambda x, a, b=1.0: a * b * h0(x)
                kw['prox_uh'] = lambda x, u, a, b=1.0: prox0(x, a * b * u)
                kw['argsh'] = kw['argsprox'] = (2.0, wt / 2.0)
                kw['lh'] = wt * lh
        if scn.get('progress'):
            kw['print_progress'] = True
        self.proj = [probs.make_proj(p) for p in scn.get('proj', [])]
        if self.proj:
            kw['projections'] = list(self.proj)
        self.nsamp = probs.make_nsamples(scn['nsamp']) if 'nsamp' in scn else None
        self.kw = kw
        n = len(self.x0)
        self.n = n
        self.lo_full = self.lo if self.lo is not None else np.full(n, -math.inf)
        self.hi_full = self.hi if self.hi is not None else np.full(n, math.inf)
        self.npt = o.get('npt') or n + 1
        self.maxfun = o.get('maxfun') or min(100 * (n + 1), 1000)
        if o.get('rhobeg') is not None:
            self.rhobeg = o['rhobeg']
        else:
            self.rhobeg = 0.1 if o.get('scaling') and not self.proj and self.lo is not None and self.hi is not None \
                else 0.1 * max(np.max(np.abs(self.x0)), 1.0)
        self.rhoend = o.get('rhoend', 1e-8)
        self.scaled = bool(o.get('scaling') and self.lo is not None and self.hi is not None and not self.proj)


def uses_random(scn, P):
    p = scn.get('params') or {}
    n, npt = P.n, P.npt
    if p.get('init.random_initial_directions', npt > (n + 1) * (n + 2) // 2):
        return True
    if p.get('growing.ndirs_initial', npt - 1) < npt - 1:
        return True
    if p.get('regression.momentum_extra_steps', False):
        return True
    if p.get('restarts.increase_npt', False):
        return True
    return False


def run(scn, limit=20.0, on_start=None, on_eval=None):
    """Returns the list of events (dicts of JSON data without floats)."""
    P = Prepared(scn)
    n = P.n
    ev = []
    det = 'noisefn' not in scn
    start = {'e': 'start', 'id': scn['id'], 'n': n, 'lo': encv(P.lo_full), 'hi': encv(P.hi_full), 'x0': encv(P.x0),
             'maxfun': int(P.maxfun), 'npt': int(P.npt), 'rhobeg': enc(P.rhobeg), 'rhoend': enc(P.rhoend),
             'det': det, 'avg': P.nsamp is not None, 'h': P.h is not None, 'proj': len(P.proj),
             'abstol': enc(par(scn, 'model.abs_tol')), 'reltol': enc(par(scn, 'model.rel_tol')),
             'maxun': int(par(scn, 'restarts.max_unsuccessful_restarts')),
             'rscale': enc(par(scn, 'restarts.rhoend_scale')), 'restarts': bool(par(scn, 'restarts.use_restarts')),
             'soft': bool(par(scn, 'restarts.use_soft_restarts')), 'resetrho': bool(par(scn, 'growing.reset_rho')),
             'thrownan': bool(par(scn, 'interpolation.throw_error_on_nans')),
             'scaled': P.scaled, 'dolog': bool(scn.get('dolog', True)), 'fault': 1000000, 'faultkind': 'none',
             'incnpt': bool(par(scn, 'restarts.increase_npt')),
             'maxnpt': int((scn.get('params') or {}).get('restarts.max_npt', P.npt)),
             'growing': bool((scn.get('params') or {}).get('growing.ndirs_initial', P.npt - 1) < P.npt - 1),
             'random': uses_random(scn, P)}
    if 'fault' in scn:
        start['fault'] = min(scn['fault'].get('at', [10 ** 6]) + [scn['fault'].get('from', 10 ** 6)])
        start['faultkind'] = scn['fault']['fault']
    if on_start is not None:
        on_start(start, P)
    ev.append(start)
    cnt = {'i': 0, 'soft': 0, 'hard': 0}
    maxabs = [float(np.max(np.abs(P.x0)))]

    def obj(x, *a):
        cnt['i'] += 1
        xx = np.array(x, dtype=float)
        e = {'e': 'eval', 'i': cnt['i'], 'x': encv(xx), 'r': [], 'hv': [0, 0], 'nlog': 0, 'li': -1, 'lj': -1,
             'raised': False}
        if on_eval is not None:
            on_eval(e, xx)
        ev.append(e)
        try:
            r = P.f(xx.copy())
        except BaseException:
            e['raised'] = True
            raise
        if P.h is not None:
            e['hv'] = enc(P.h(xx))
        e['r'] = encv(r)
        if np.all(np.isfinite(xx)):
            maxabs[0] = max(maxabs[0], float(np.max(np.abs(xx))))
        return np.array(r)

    def log(msg):
        mt = LOGRE.match(msg)
        if mt:
            for e in reversed(ev):
                if e['e'] == 'eval':
                    e['nlog'] += 1
                    e['li'], e['lj'] = int(mt.group(1)), int(mt.group(2))
                    break
        elif msg.startswith('Soft restart [') or msg.startswith('Restarting from finish point'):
            kind = 'soft' if msg.startswith('Soft') else 'hard'
            cnt[kind] += 1
            ev.append({'e': 'restart', 'kind': kind})

    kw = P.kw
    if P.nsamp is not None:
        def ns(delta, rho, it, nruns):
            k = P.nsamp(delta, rho, it, nruns)
            ev.append({'e': 'nsamp', 'delta': enc(delta), 'rho': enc(rho), 'iter': int(it), 'nruns': int(nruns),
                       'ret': int(k)})
            return k
        kw['nsamples'] = ns
    np.random.seed(scn.get('seed', 0))
    end = {'e': 'end', 'status': 'ok', 'exc': '', 'same': False}
    soln = None
    TAP.cb = log
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                with cpu_limit(limit), la_fault(scn.get('la')), contextlib.redirect_stdout(io.StringIO() if scn.get('progress') else sys.stdout):
                    soln = dfols.solve(obj, P.x0, **kw)
    except Hang:
        end['status'] = 'hang'
    except BaseException as ex:
        if not isinstance(ex, Exception) and not (P.faulty is not None and P.faulty.raised is ex):
            raise
        end['status'] = 'raise'
        end['exc'] = type(ex).__name__ + ': ' + str(ex)[:200]
        if P.faulty is not None and P.faulty.raised is ex:
            end['same'] = True
    finally:
        TAP.cb = None
    if soln is not None:
        try:
            end.update(encode_soln(soln, P))
        except Exception as ex:
            end['status'] = 'badresult'
            end['exc'] = type(ex).__name__ + ': ' + str(ex)[:200]
    end['maxabs'] = enc(max(maxabs[0], float(np.max(np.abs(P.lo_full[np.isfinite(P.lo_full)]), initial=0.0)) if P.scaled else 0.0,
                            float(np.max(np.abs(P.hi_full[np.isfinite(P.hi_full)]), initial=0.0)) if P.scaled else 0.0))
    end['nrestlog'] = cnt['soft'] + cnt['hard']
    end['calls'] = cnt['i']
    ev.append(end)
    return ev, soln, P


MSGS = [('small', 'bjective is sufficiently small'), ('rhoend', 'rho has reached rhoend'),
        ('maxfun', 'Objective has been called MAXFUN times'), ('unsucc', 'aximum number of unsuccessful restarts'),
        ('noise', 'within noise level')]


def encode_soln(s, P):
    o = {}
    o['flag'] = int(s.flag)
    o['msglen'] = len(s.msg) if isinstance(s.msg, str) else -1
    o['msg'] = 'other'
    for (k, t) in MSGS:
        if t in str(s.msg):
            o['msg'] = k
    o['success'] = bool(s.flag == s.EXIT_SUCCESS)
    o['inputerr'] = bool(s.flag == s.EXIT_INPUT_ERROR)
    o['maxfunwarn'] = bool(s.flag == s.EXIT_MAXFUN_WARNING)
    o['nf'], o['nx'], o['nruns'] = int(s.nf), int(s.nx), int(s.nruns)
    o['hasx'] = s.x is not None
    o['x'] = encv(s.x) if s.x is not None else []
    o['resid'] = encv(s.resid) if s.resid is not None else []
    o['obj'] = enc(s.obj) if s.obj is not None else [7, 0]
    hx = 0.0
    if P.h is not None and s.x is not None:
        try:
            hx = float(P.h(s.x))
        except Exception:
            hx = math.nan
    o['hx'] = enc(hx)
    o['xe'] = int(s.xmin_eval_num) if s.xmin_eval_num is not None else 0
    o['hasj'] = s.jacobian is not None
    o['jac'] = encm(s.jacobian) if s.jacobian is not None else []
    o['je'] = [int(t) for t in s.jacmin_eval_nums] if s.jacmin_eval_nums is not None else []
    o['hasje'] = s.jacmin_eval_nums is not None
    o['diag'] = []
    o['hasdiag'] = s.diagnostic_info is not None
    if s.diagnostic_info is not None:
        D = s.diagnostic_info
        cols = list(D.columns)
        o['cols'] = cols

        def get(c, k, f):
            return f(D[c].iloc[k]) if c in cols else None
        for k in range(len(D)):
            row = {'run': get('nruns', k, int), 'it': get('iter_this_run', k, int), 'tot': get('iters_total', k, int),
                   'nf': get('nf', k, int), 'nx': get('nx', k, int), 'npt': get('npt', k, int),
                   'delta': get('delta', k, enc), 'rho': get('rho', k, enc), 'fk': get('fk', k, enc)}
            row = {a: (b if b is not None else -1) for (a, b) in row.items()}
            o['diag'].append(row)
    try:
        o['strlen'] = len(str(s))
    except Exception as ex:
        o['strlen'] = -1
    return o
