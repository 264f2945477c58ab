"""C07: calls of solve with valid, boundary, invalid and contradictory arguments, and whole runs over the option space."""
import math
import os
import random
import re
import warnings
import numpy as np
from dy import enc, encv
import gen
import probs
import rec
import dfols

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'Inputs.tla')
TABLE = {}
for k, t, none, lo, hi in re.findall(r'"([\w.]+)" :> T\("(\w+)", (TRUE|FALSE), "([^"]*)", "([^"]*)"\)', open(SPEC).read()):
    TABLE[k] = (t, lo, hi)
KEYS = sorted(TABLE)
CLASSES = ['mid', 'mid2', 'lo', 'hi', 'below', 'above', 'farbelow', 'farabove', 'str', 'list', 'none', 'bool', 'int', 'float', 'nan', 'inf', 'ninf',
           'npfloat', 'npint', 'array', 'dict', 'true', 'false', 'npbool', 'huge', 'just_below', 'just_above']
UNKNOWN = ['tr_radius.eta3', 'Tr_radius.eta1', 'tr_radius.eta1 ', '', 'restarts', 'growing.', 'noise.additive', 'logging.save_xkk', 'rhobeg', 'npt', 'maxfun', 'general',
           'tr_radius', 'dykstra.max_iter', 'init.run_in_parallell', 'params', 'model.abs_tol.', 'slow.max_slow_iter']


def scenarios(tier, seed):
    # every key with every class of values, in several surroundings
    rounds = 6 if tier == 'quick' else 200
    yield {'id': 'C07-keys', 'kind': 'keys'}
    for rd in range(rounds):
        for k in KEYS:
            for c in CLASSES:
                yield {'id': 'C07-%s-%d-%s-%s' % (seed, rd, k, c), 'kind': 'param', 'seed': 'C07:%s:%d:%s:%s' % (seed, rd, k, c), 'key': k, 'cls': c}
        for i in range(700):
            yield {'id': 'C07-%s-%d-args%d' % (seed, rd, i), 'kind': 'args', 'seed': 'C07a:%s:%d:%d' % (seed, rd, i)}
        for i in range(700):
            s = gen.run_scenario('C07', seed, rd * 700 + i, proj=0.2, h=0.15, scaling=0.25, growing=0.3, script=0.15, words=('nan', 'inf', 'zero', 'huge') if i % 3 == 0 else ())
            (s.get('params') or {}).pop('interpolation.throw_error_on_nans', None)
            if (s.get('params') or {}).get('growing.safety.full_geom_step'):
                s['params']['growing.safety.reduce_delta'] = False
            s['opts']['maxfun'] = min(s['opts'].get('maxfun', 60), 60)
            s['kind'] = 'run'
            yield s


def lim(s, npt):
    return None if s == '-' else npt if s == 'npt' else npt - 1 if s == 'npt-1' else int(s)


def value(r, key, cls, npt):
    t, lo, hi = TABLE[key]
    lo, hi = lim(lo, npt), lim(hi, npt)
    num = (lambda v: int(v)) if t == 'int' else (lambda v: float(v))
    if cls in ('mid', 'mid2'):
        if t == 'bool':
            return r.random() < 0.5
        if t == 'int':
            a = lo if lo is not None else 0
            b = hi if hi is not None else a + 6
            return r.randint(a, max(a, b))
        a = lo if lo is not None else 0.0
        if hi is not None:
            return a + (hi - a) * r.uniform(0.05, 0.95)
        return a + 10.0 ** r.uniform(-8, 1)
    if cls == 'lo':
        return num(lo if lo is not None else 0)
    if cls == 'hi':
        return num(hi if hi is not None else 3)
    if cls == 'below':
        return num((lo if lo is not None else 0) - 1)
    if cls == 'above':
        return num((hi if hi is not None else 10) + 1)
    if cls == 'just_below':
        return num((lo or 0) - 1) if t == 'int' else float(np.nextafter(lo if lo is not None else 0, -1e9)) if lo != 0 else -1e-300
    if cls == 'just_above':
        return num((hi if hi is not None else 10) + 1) if t == 'int' else float(np.nextafter(hi if hi is not None else 1.0, 1e9))
    if cls == 'farbelow':
        return num(-1000)
    if cls == 'farabove':
        return num(1000)
    return {'str': r.choice(['1', 'True', 'abc', '0.5']), 'list': [1.0], 'none': None, 'bool': r.random() < 0.5, 'int': r.choice([0, 1, 2]), 'float': r.choice([0.5, 1.0, 2.0, 3.0]),
            'nan': math.nan, 'inf': math.inf, 'ninf': -math.inf, 'npfloat': np.float64(0.5), 'npint': np.int64(1), 'array': np.array([1.0]), 'dict': {'a': 1}, 'true': True,
            'false': False, 'npbool': np.bool_(True), 'huge': num(3000 if t == 'int' else 1e100)}[cls]


def vrec(v):
    if v is None:
        return {'t': 'none', 'v': enc(0.0)}
    if isinstance(v, bool):
        return {'t': 'bool', 'v': enc(1.0 if v else 0.0)}
    if isinstance(v, np.bool_):
        return {'t': 'npbool', 'v': enc(0.0)}
    if isinstance(v, np.float64):
        return {'t': 'npfloat', 'v': enc(v)}
    if isinstance(v, np.integer):
        return {'t': 'npint', 'v': enc(float(v))}
    if isinstance(v, int):
        return {'t': 'int', 'v': enc(float(v))}
    if isinstance(v, float):
        return {'t': 'float', 'v': enc(v)}
    if isinstance(v, str):
        return {'t': 'str', 'v': enc(0.0)}
    return {'t': type(v).__name__ if isinstance(v, (list, dict)) else 'array', 'v': enc(0.0)}


def surroundings(r, key, call):
    """options which make the key matter"""
    p, n = call['params'], call['n']

    def opt(k, v):
        if k != key:
            p.setdefault(k, v)
    g = key.split('.')[0]
    if r.random() < 0.25:
        return
    if g == 'restarts':
        opt('restarts.use_restarts', True)
        if 'hard' in key:
            opt('restarts.use_soft_restarts', False)
        if 'npt' in key and key != 'restarts.max_npt':
            opt('restarts.increase_npt', True)
            opt('restarts.max_npt', call['npt'] + 2)
        elif key == 'restarts.increase_npt':
            opt('restarts.max_npt', call['npt'] + 2)
        call['rhoend'] = call['rhobeg'] * 0.3
        call['maxfun'] = 30
    elif g == 'growing' and key != 'growing.ndirs_initial' and call['npt'] > 2:
        opt('growing.ndirs_initial', 1)
        if key == 'growing.reset_rho' and r.random() < 0.7:
            opt('growing.reset_delta', True)
        if key == 'growing.perturb_trust_region_step' and r.random() < 0.7:
            opt('growing.full_rank.use_full_rank_interp', False)
    elif g == 'regression' and key != 'regression.num_extra_steps':
        opt('regression.num_extra_steps', 2)
    elif g == 'noise':
        call['noise'] = r.random() < 0.5
        opt('noise.quit_on_noise_level', True)
        if key == 'noise.scale_factor_for_quit':
            opt('noise.additive_noise_level', 0.1)
    elif g == 'dykstra' or g == 'matrix_rank':
        call['projk'] = 'ball'
    elif g in ('func_tol', 'sfista'):
        call['h'] = True
        call['maxfun'] = 12
    elif g == 'logging':
        opt('logging.save_diagnostic_info', True)
    elif g == 'init':
        if r.random() < 0.6:
            opt('init.random_initial_directions', True)
    elif g == 'slow':
        call['noise'] = r.random() < 0.5


def base_call(r):
    n = r.choice([1, 2, 2, 3])
    c = {'n': n, 'npt': None, 'rhobeg': r.choice([0.1, 0.3, 1.0]), 'rhoend': r.choice([1e-8, 1e-3, 1e-2]), 'maxfun': r.randint(8, 40), 'params': {}, 'noise': False, 'scaling': False,
         'h': False, 'hasprox': True, 'haslh': True, 'lh': 1.0, 'projk': None, 'x0': [r.uniform(-1, 1) for _ in range(n)], 'lo': None, 'hi': None, 'lolen': n, 'hilen': n,
         'seed': r.randint(0, 10 ** 6), 'prob': r.choice(['rosenn', 'trig', 'quad', 'under', 'quad'])}
    if r.random() < 0.4:
        c['lo'] = [v - r.uniform(0, 3) for v in c['x0']]
        c['hi'] = [v + 2.5 + r.uniform(0, 3) for v in c['x0']]
        if r.random() < 0.4:
            c['scaling'] = True
            c['rhobeg'] = r.choice([0.1, 0.3, 0.5])
    c['npt'] = n + 1 if r.random() < 0.6 else r.choice([n + 2, 2 * n + 1, (n + 1) * (n + 2) // 2])
    return c


def spoil(r, c):
    n = c['n']
    k = r.choice(['npt', 'npt', 'rhobeg', 'rhobeg', 'rhoend', 'rhoend', 'rhopair', 'maxfun', 'gap', 'gap', 'gapedge', 'cross', 'shape', 'hprox', 'hlh', 'hlhval', 'hok', 'x0nan',
                  'unknown', 'combo', 'combo', 'lowfun', 'scaledgap', 'scaledcross', 'proj', 'outside', 'default', 'onesided'])
    if k == 'npt':
        c['npt'] = r.choice([n, n - 1, 1, 0, -1, n + 1, n])
    elif k == 'rhobeg':
        c['rhobeg'] = r.choice([0.0, -0.1, -1e-300, math.nan, -math.inf, 1e-9])
    elif k == 'rhoend':
        c['rhoend'] = r.choice([0.0, -1e-8, math.nan, -math.inf, math.inf, 1e-300])
    elif k == 'rhopair':
        c['rhoend'] = c['rhobeg'] * r.choice([1.0, 1.0 + 2e-16, 2.0, 0.999999, 10.0])
    elif k == 'maxfun':
        c['maxfun'] = r.choice([0, -1, -100, 1, 2])
    elif k == 'lowfun':
        c['maxfun'] = r.choice([1, 2, c['npt'] - 1 if c['npt'] > 1 else 1, max(1, c['npt'])])
    elif k in ('gap', 'gapedge', 'cross'):
        c['scaling'] = False
        w = 2 * c['rhobeg'] if c['rhobeg'] > 0 else 1.0
        f = {'gap': [0.5, 0.9, 0.999999, 0.0], 'gapedge': [1.0, 1.0 + 1e-15, 1.0 - 1e-15, 1.0 + 1e-9], 'cross': [-0.1, -10.0]}[k]
        i = r.randrange(n)
        c['lo'] = [v - 2 * w for v in c['x0']]
        c['hi'] = [v + 2 * w for v in c['x0']]
        a = c['x0'][i] - w * r.random()
        c['lo'][i], c['hi'][i] = a, a + w * r.choice(f)
    elif k == 'shape':
        c['lo'] = [v - 3.0 for v in c['x0']]
        c['hi'] = [v + 3.0 for v in c['x0']]
        t = r.choice(['lo', 'hi', 'both'])
        if t in ('lo', 'both'):
            c['lo'] = r.choice([c['lo'] + [-3.0], c['lo'] * 2])
        if t in ('hi', 'both'):
            c['hi'] = r.choice([c['hi'] + [3.0], c['hi'] * 2])
        c['scaling'] = r.random() < 0.3
    elif k == 'hprox':
        c['h'], c['hasprox'] = True, False
    elif k == 'hlh':
        c['h'], c['haslh'] = True, False
    elif k == 'hlhval':
        c['h'], c['lh'] = True, r.choice([0.0, -1.0, math.nan, math.inf, -math.inf, 1e-12, 1e12])
        c['maxfun'] = min(c['maxfun'], 10)
    elif k == 'hok':
        c['h'] = True
        c['maxfun'] = min(c['maxfun'], 12)
    elif k == 'x0nan':
        c['x0'][r.randrange(n)] = r.choice([math.nan, math.inf, -math.inf])
    elif k == 'unknown':
        c['params'][r.choice(UNKNOWN)] = r.choice([1, 0.5, True, None, 'a'])
    elif k == 'combo':
        p = c['params']
        t = r.choice(['safety', 'growth', 'noise2', 'noise2q', 'resetrho', 'parallel', 'noise0'])
        if t == 'safety':
            p['growing.safety.full_geom_step'] = True
            p['growing.safety.reduce_delta'] = r.random() < 0.7
        elif t == 'growth':
            p['growing.full_rank.use_full_rank_interp'] = r.random() < 0.7
            p['growing.perturb_trust_region_step'] = True
            if c['npt'] > 2 and r.random() < 0.5:
                p['growing.ndirs_initial'] = 1
        elif t in ('noise2', 'noise2q'):
            p['noise.multiplicative_noise_level'] = r.choice([0.0, 0.1, 1e-3])
            p['noise.additive_noise_level'] = r.choice([0.0, 0.1, 1e-3])
            if t == 'noise2q':
                p['noise.quit_on_noise_level'] = r.random() < 0.8
            else:
                c['noise'] = r.random() < 0.6
        elif t == 'noise0':
            p['noise.quit_on_noise_level'] = True
            c['noise'] = r.random() < 0.5
        elif t == 'resetrho':
            p['growing.reset_rho'] = True
            if r.random() < 0.4:
                p['growing.reset_delta'] = r.random() < 0.5
        else:
            p['init.run_in_parallel'] = True
            if r.random() < 0.5:
                p['init.random_initial_directions'] = r.random() < 0.7
    elif k == 'scaledgap':
        c['lo'] = [v - 1.0 for v in c['x0']]
        c['hi'] = [v + 1.0 for v in c['x0']]
        c['scaling'] = True
        c['rhobeg'] = r.choice([0.5, 0.5 + 1e-15, 0.6, 1.0, 0.4999, 10.0])
    elif k == 'scaledcross':
        c['lo'] = [v - 1.0 for v in c['x0']]
        c['hi'] = [v + 1.0 for v in c['x0']]
        i = r.randrange(n)
        c['hi'][i] = c['lo'][i] - r.choice([0.0, 1.0])
        c['scaling'] = True
        c['rhobeg'] = 0.1
    elif k == 'proj':
        c['projk'] = r.choice(['ball', 'box'])
        c['scaling'] = r.random() < 0.2 and c['lo'] is not None
    elif k == 'outside':
        c['lo'] = [v + r.uniform(0.1, 1) for v in c['x0']]
        c['hi'] = [v + 3.0 for v in c['lo']]
        c['scaling'] = False
        c['rhobeg'] = r.choice([0.1, 1.0])
    elif k == 'default':
        c['defaults'] = True
    elif k == 'onesided':
        c['lo'], c['hi'] = ([v - 1.0 for v in c['x0']], None) if r.random() < 0.5 else (None, [v + 1.0 for v in c['x0']])
        c['scaling'] = r.random() < 0.3


def residual(c):
    n = c['n']
    if c['prob'] == 'under':
        w = np.arange(1.0, n + 1)
        return lambda x: np.array([np.dot(w, x) - 1.0 + 0.1 * np.sin(x[0])])
    if c['prob'] == 'quad':
        return probs.make_resid({'kind': 'quad', 'n': n, 'm': n + 1, 'seed': 3})
    return probs.make_resid({'kind': c['prob']})


def clean(r):
    return {k: r.get(k, d) for k, d in [('status', 'none'), ('flag', 99), ('msglen', -1), ('strlen', -1), ('inputerr', False), ('nf', -1), ('nx', -1), ('nruns', -1), ('hasx', False),
                                        ('x', []), ('resid', []), ('xe', -1), ('consts', []), ('calls', -1), ('hasobj', False), ('exc', '')]}


def summarise(s, r):
    r['flag'], r['msglen'] = int(s.flag), len(s.msg) if isinstance(s.msg, str) else -1
    try:
        t = str(s)
        r['strlen'] = len(t) if isinstance(t, str) else -1
    except Exception as ex:
        r['exc'] = 'str: ' + str(ex)[:100]
        r['strlen'] = -1
    r['consts'] = [{'k': k, 'v': int(getattr(s, k))} for k in dir(s) if k.startswith('EXIT_') and isinstance(getattr(s, k), int)]
    r['inputerr'] = bool(getattr(s, 'EXIT_INPUT_ERROR', None) == s.flag)
    r['nf'], r['nx'], r['nruns'] = int(s.nf), int(s.nx), int(s.nruns)
    r['hasx'] = s.x is not None
    r['x'] = encv(s.x) if s.x is not None else []
    r['resid'] = encv(s.resid) if s.resid is not None else []
    r['xe'] = int(s.xmin_eval_num) if s.xmin_eval_num is not None else -1
    r['hasobj'] = s.obj is not None


def record(scn):
    if scn['kind'] == 'keys':
        return [{'e': 'keys', 'id': scn['id'], 'keys': KEYS}]
    if scn['kind'] == 'run':
        ev, soln, P = rec.run(scn)
        r = {'status': ev[-1]['status'], 'exc': ev[-1]['exc'], 'calls': ev[-1]['calls']}
        if soln is not None:
            summarise(soln, r)
        return [{'e': 'run', 'id': scn['id'], 'c': {'n': P.n}, 'r': clean(r)}]
    r = random.Random(scn['seed'])
    c = base_call(r)
    if scn['kind'] == 'param':
        c['params'] = {}
        v = value(r, scn['key'], scn['cls'], c['npt'])
        surroundings(r, scn['key'], c)
        c['params'][scn['key']] = v
    else:
        for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
            spoil(r, c)
        if r.random() < 0.3:
            k = r.choice(KEYS)
            c['params'].setdefault(k, value(r, k, r.choice(CLASSES), max(2, c['npt'])))
    return [call(scn['id'], c)]


def call(sid, c):
    n = c['n']
    x0 = np.array(c['x0'])
    f = residual(c)
    cnt = [0]

    def obj(x):
        cnt[0] += 1
        return f(x)
    kw = {'do_logging': False}
    d = c.get('defaults', False)
    rb = c['rhobeg']
    scaled = bool(c['scaling'] and c['lo'] is not None and c['hi'] is not None and not c['projk'])
    npt, rhoend, maxfun = c['npt'], c['rhoend'], c['maxfun']
    if d:
        mx = float(np.max(np.abs(x0)))
        rb = 0.1 if scaled else 0.1 * max(mx if mx == mx else 1.0, 1.0)
        npt, rhoend, maxfun = n + 1, 1e-8, min(100 * (n + 1), 1000)
    else:
        kw.update(npt=npt, rhobeg=rb, rhoend=rhoend, maxfun=maxfun)
    lo = np.full(n, -1e20) if c['lo'] is None else np.array(c['lo'])
    hi = np.full(n, 1e20) if c['hi'] is None else np.array(c['hi'])
    if c['lo'] is not None or c['hi'] is not None:
        kw['bounds'] = (None if c['lo'] is None else lo.copy(), None if c['hi'] is None else hi.copy())
    if c['scaling']:
        kw['scaling_within_bounds'] = True
    if c['noise']:
        kw['objfun_has_noise'] = True
    if c['h']:
        lam = 0.3
        kw['h'] = lambda x: lam * np.sum(np.abs(x))
        if c['hasprox']:
            kw['prox_uh'] = lambda x, u: np.sign(x) * np.maximum(np.abs(x) - lam * u, 0.0)
        if c['haslh']:
            kw['lh'] = c['lh']
    if c['projk']:
        z = np.where(np.isfinite(x0), x0, 0.0)
        kw['projections'] = [probs.make_proj({'kind': 'ball', 'c': list(z), 'r': 3.0} if c['projk'] == 'ball' else {'kind': 'box', 'lo': list(z - 2), 'hi': list(z + 2)})]
    if c['params']:
        kw['user_params'] = dict(c['params'])
    shape = 'ok' if len(lo) == n and len(hi) == n else 'bad'
    e = {'e': 'call', 'id': sid,
         'c': {'n': n, 'npt': npt, 'rhobeg': enc(rb), 'rhobeg2': enc(2 * rb), 'rhoend': enc(rhoend), 'maxfun': int(maxfun), 'noise': c['noise'], 'scaling': scaled, 'proj': bool(c['projk']),
               'h': c['h'], 'hasprox': c['hasprox'], 'haslh': c['haslh'], 'lh': enc(c['lh']), 'shape': shape, 'lo': encv(lo), 'hi': encv(hi), 'x0': encv(x0),
               'params': [{'k': k, 'v': vrec(v)} for k, v in c['params'].items()]}}
    r = {'status': 'ok', 'exc': ''}
    np.random.seed(c['seed'])
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'), rec.cpu_limit(30.0):
            warnings.simplefilter('ignore')
            s = dfols.solve(obj, x0.copy(), **kw)
        summarise(s, r)
    except rec.Hang:
        r['status'] = 'hang'
    except Exception as ex:
        r['status'] = type(ex).__name__
        r['exc'] = str(ex)[:150]
    r['calls'] = cnt[0]
    e['r'] = clean(r)
    return e
