"""Words of objective values found by TLC on the run-control specification (spec/DFOLS.tla), replayed into the real solver, and the
recorded runs checked to be behaviours of the specification (spec/DFOLSTrace.tla)."""
import json
import math
import os
import random
import re
import struct

INF, NAN = 50, 99
BASE = dict(mode='none', oldrk=True, movexk=True, ng=1, npt=2, ninit=2, maxfun=5, maxun=1, R=1, noise=False, auto=True, maxfake=2,
            grownew=False, safegeom=False, inc=0, maxnpt=2)
# the instances of spec/MC_DFOLS.tla: differences from BASE, and dimension, further parameters of the real call
SOFT = {'mode': 'soft'}
HARD = {'mode': 'hard'}
CONF = {
    'none': ({}, [1], {}),
    'n3': (dict(npt=3, ninit=3), [1, 2], {}),
    'g0': (dict(npt=3, ninit=2), [2], {}),
    'g1': (dict(npt=3, ninit=2, grownew=True, safegeom=True), [2], {'growing.full_rank.use_full_rank_interp': False}),
    's1': (SOFT, [1], {}),
    's2': (dict(SOFT, movexk=False, maxun=2), [1], {}),
    's3': (dict(SOFT, ng=2, maxun=2, maxfake=1, noise=True), [1], {}),
    's4': (dict(SOFT, ng=0, inc=1, maxnpt=3), [1, 2], {}),
    'h1': (HARD, [1], {}),
    'h2': (dict(HARD, oldrk=False), [1], {}),
    'h3': (dict(HARD, maxun=2), [1], {}),
    'h4': (dict(HARD, oldrk=False, maxun=2), [1], {}),
}
CASES = ['none', 'grow', 'soft', 'hard']
# levels 1, 2, 3 as values
SCALES = [[10.0, 20.0, 40.0], [1.0, 1e4, 1e8], [3.0, 3.0000001, 3.0000002], [1e-6, 1.0, 1e6], [5.0, 6.0, 1e300], [1e-11, 1e-10, 1e-9]]
WORD = re.compile(r'<<"T", "([^"]*)", <<([\d, ]*)>>>>')


def parse(out):
    """{config: set of words}, without words which are prefixes of others"""
    ws = {}
    for m in WORD.finditer(out):
        ws.setdefault(m.group(1), set()).add(tuple(int(t) for t in m.group(2).split(',')))
    for c in ws:
        pre = {w[:k] for w in ws[c] for k in range(len(w))}
        ws[c] = sorted(ws[c] - pre)
    return ws


def config(cid, maxfun):
    c = dict(BASE, maxfun=maxfun)
    c.update(CONF[cid][0])
    return c


def scenario(cid, maxfun, word, seed):
    c = config(cid, maxfun)
    r = random.Random('%s:%s:%s:%s' % (cid, maxfun, word, seed))
    n = r.choice([k for k in CONF[cid][1] if c['npt'] <= (k + 1) * (k + 2) // 2 and c['npt'] >= k + 1])
    if c['inc']:
        n = 1
    sc = r.choice(SCALES)
    val = {0: 1e-30, INF: 'inf', NAN: 'nan'}
    val.update({k + 1: v for k, v in enumerate(sc)})
    p = dict(CONF[cid][2])
    rhobeg = r.choice([0.1, 0.5, 1.0])
    scn = {'id': 'W-%s-%d-%s-%s' % (cid, maxfun, '.'.join(map(str, word)), seed), 'x0': [round(r.uniform(-2, 2), 3) for _ in range(n)],
           'opts': {'npt': c['npt'], 'maxfun': maxfun, 'rhobeg': rhobeg, 'rhoend': rhobeg * r.choice([0.1, 0.3])}, 'seed': r.randint(0, 999),
           'prob': {'kind': 'script', 'word': [val[t] for t in word], 'm': r.choice([n, n + 1]), 'tail': sc[-1], 'seed': r.randint(0, 99)},
           'params': p, 'word': {'cfg': cid, 'maxfun': maxfun, 'levels': [val[k] for k in range(len(sc) + 1)]}}
    if r.random() < 0.25:      # bounds which do not cut off anything at first
        scn['lo'] = [v - rhobeg * r.choice([1.5, 2.0, 5.0]) for v in scn['x0']]
        scn['hi'] = [v + rhobeg * r.choice([1.5, 2.0, 5.0]) for v in scn['x0']]
    p['restarts.use_restarts'] = c['mode'] != 'none'
    if c['mode'] != 'none':
        p['restarts.use_soft_restarts'] = c['mode'] == 'soft'
        p['restarts.max_unsuccessful_restarts'] = c['maxun']
        p['restarts.rhoend_scale'] = 1.0
        p['restarts.hard.use_old_rk'] = c['oldrk']
        p['restarts.soft.num_geom_steps'] = c['ng']
        p['restarts.soft.move_xk'] = c['movexk']
        p['restarts.soft.max_fake_successful_steps'] = c['maxfake']
        if c['inc']:
            p['restarts.increase_npt'] = True
            p['restarts.increase_npt_amt'] = c['inc']
            p['restarts.max_npt'] = c['maxnpt']
    else:
        p['restarts.soft.max_fake_successful_steps'] = c['maxfake']
    if c['noise']:
        p['noise.quit_on_noise_level'] = True
        p['noise.additive_noise_level'] = r.choice([0.5, 20.0, 1e5])
    if c['ninit'] < c['npt']:
        p['growing.ndirs_initial'] = c['ninit'] - 1
        p['growing.do_geom_steps'] = c['safegeom']
        p['growing.num_new_dirns_each_iter'] = 1 if c['grownew'] else 0
    if r.random() < 0.4:
        p['slow.max_slow_iters'] = 1
        p['slow.history_for_slow'] = 1
        p['slow.thresh_for_slow'] = r.choice([1e-4, 0.9])
    if r.random() < 0.5:
        p['logging.save_diagnostic_info'] = True
    return scn


def dec(v):
    """recorded double -> float"""
    return v if isinstance(v, float) else None


def level(scn, r):
    """ordinal of a residual vector"""
    s = 0.0
    for t in r:
        s += t * t
    if s != s:
        return NAN
    if math.isinf(s):
        return INF
    if s <= 1e-12:
        return 0
    lv = scn['word']['levels'][1:]
    k = min(range(len(lv)), key=lambda i: abs(math.log(s / lv[i])))
    return k + 1


def abstract(scn, ev, undy):
    """record for DFOLSTrace, or None if the run did not end normally"""
    end = ev[-1]
    if end.get('status') != 'ok' or 'flag' not in end:
        return None
    hist = [level(scn, [undy(t) for t in e['r']]) for e in ev if e['e'] == 'eval']
    c = config(scn['word']['cfg'], scn['word']['maxfun'])
    return {'cfg': c, 'hist': hist, 'flag': end['flag'], 'msg': end['msg'], 'runs': end['nruns'], 'k': end['xe'], 'id': scn['id']}
