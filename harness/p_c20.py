"""C20: results of real runs (every exit), and the same results with fields made unusual, through to_dict / json / from_dict / str."""
import copy
import json
import math
import random

import numpy as np
import pandas as pd
from dy import enc, encv
import gen
import rec
from dfols.solver import OptimResults

FIELDS = ['x', 'resid', 'obj', 'jacobian', 'nf', 'nx', 'nruns', 'flag', 'msg', 'diagnostic_info', 'xmin_eval_num', 'jacmin_eval_nums']


def scenarios(tier, seed):
    n = 3500 if tier == 'quick' else 60000
    for i in range(n):
        s = gen.run_scenario('C20', seed, i, diag=0.4, fault=0.3, raises=0.0, h=0.1, proj=0.1, budget=['tiny', 'tiny', 'small', 'small', 'mid'], words=('nan', 'inf', 'zero') if i % 5 == 0 else (),
                             growing=0.25, themes=0.4)
        p = s.setdefault('params', {})
        r = random.Random('C20x:%s:%d' % (seed, i))
        if p.get('logging.save_diagnostic_info'):
            s['opts']['maxfun'] = min(s['opts'].get('maxfun', 35), 35)
            if r.random() < 0.3:
                p['logging.save_xk'] = True
            if r.random() < 0.3:
                p['logging.save_rk'] = True
        if r.random() < 0.12:  # beyond the printing thresholds
            n1 = len(s['x0'])
            s['prob'] = {'kind': 'quad', 'n': n1, 'm': r.choice([98, 99, 100, 101, 130, 200 // n1, 200 // n1 + 1, 199 // n1]), 'seed': r.randint(0, 999)}
            s['opts']['maxfun'] = min(s['opts'].get('maxfun', 20), 20)
            s.pop('fault', None)
        s['edits'] = [[]] + [edits(r) for _ in range(3)]
        yield s


def edits(r):
    return [[r.choice(['x', 'resid', 'jac', 'obj', 'nojac', 'nojacnums', 'npcounts', 'diagcell', 'diagnone', 'longresid', 'bigjac', 'msg', 'flag', 'longnums', 'diagint', 'nodiag', 'f32', 'zero', 'jac1']),
             r.choice(['nan', 'inf', '-inf', '0.1', '-0.0', '1e308', '5e-324', '1e-300', '123456789.123456789']), r.randint(0, 10 ** 6)] for _ in range(r.choice([1, 1, 2, 3]))]


def edit(s, ops):
    for op, v, k in ops:
        v = float(v)
        if op == 'x':
            s.x = np.array(s.x, dtype=float)
            s.x[k % len(s.x)] = v
        elif op == 'resid':
            s.resid = np.array(s.resid, dtype=float)
            s.resid[k % len(s.resid)] = v
        elif op == 'zero':
            s.resid = np.zeros(len(s.resid))
        elif op == 'jac' and s.jacobian is not None:
            s.jacobian = np.array(s.jacobian, dtype=float)
            s.jacobian.flat[k % s.jacobian.size] = v
        elif op == 'obj':
            s.obj = v if k % 2 else np.float64(v)
        elif op == 'nojac':
            s.jacobian = None
        elif op == 'nojacnums':
            s.jacmin_eval_nums = None
        elif op == 'jac1':
            s.jacobian = np.full((1, len(s.x)), v)
        elif op == 'npcounts':
            s.nf, s.nx, s.nruns, s.xmin_eval_num = np.int64(s.nf), np.int32(s.nx), np.int64(s.nruns + k % 3), np.int64(s.xmin_eval_num)
        elif op == 'longresid':
            s.resid = np.linspace(0, 1, 98 + k % 5)
        elif op == 'bigjac':
            s.jacobian = np.arange(float(len(s.x) * (195 // len(s.x) + k % 8))).reshape(-1, len(s.x)) / 3.0
        elif op == 'longnums':
            s.jacmin_eval_nums = np.arange(97 + k % 6)
        elif op == 'msg':
            s.msg = ['Error: "quoted"\n\t\\ line', u'\u00e9\u4e2d', 'NaN', 'None', 'Infinity'][k % 5]
        elif op == 'flag':
            s.flag = [s.EXIT_SUCCESS, s.EXIT_MAXFUN_WARNING, s.EXIT_SLOW_WARNING, s.EXIT_FALSE_SUCCESS_WARNING, s.EXIT_TR_INCREASE_WARNING, s.EXIT_TR_INCREASE_ERROR,
                      s.EXIT_LINALG_ERROR, s.EXIT_EVAL_ERROR][k % 8]
        elif op == 'f32':
            s.x = np.asfortranarray(np.array(s.x)[::-1])[::-1]
            if s.jacobian is not None:
                s.jacobian = np.asfortranarray(s.jacobian)
        elif op == 'nodiag':
            s.diagnostic_info = None
        elif op in ('diagcell', 'diagnone', 'diagint') and s.diagnostic_info is not None and len(s.diagnostic_info) > 0:
            D = s.diagnostic_info.copy()
            cols = [c for c in D.columns if c not in ('xk', 'rk', 'iter_type')]
            if op == 'diagint':
                cols = [c for c in cols if D[c].dtype.kind == 'i']
                D[cols[k % len(cols)]] = k
            else:
                c = cols[k % len(cols)]
                col = list(D[c])
                for i in range(len(col)):
                    if (k >> (i % 16)) & 1 or op == 'diagcell' and k % len(col) == i:
                        col[i] = None if op == 'diagnone' else v
                D[c] = pd.Series(col, index=D.index)
            s.diagnostic_info = D


def isint(v):
    return isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_))


def val(v):
    if v is None:
        return {'t': 'none'}
    if isinstance(v, (bool, np.bool_)):
        return {'t': 'bool', 's': str(bool(v))}
    if isint(v):
        return {'t': 'num', 'v': enc(int(v)), 'int': True}
    if isinstance(v, (float, np.floating)):
        return {'t': 'num', 'v': enc(float(v)), 'int': False}
    if isinstance(v, str):
        return {'t': 'str', 's': v}
    if isinstance(v, np.ndarray):
        k = v.dtype.kind
        if k not in 'iuf':
            return {'t': 'arr', 'shape': list(v.shape), 'int': False, 'v': [], 'other': str(v.dtype)}
        return {'t': 'arr', 'shape': list(v.shape), 'int': k in 'iu', 'v': [enc(t) for t in v.ravel().tolist()]}
    if isinstance(v, pd.DataFrame):
        return {'t': 'table', 'cols': [str(c) for c in v.columns], 'idx': [int(i) if isint(i) else -1 for i in v.index],
                'data': [[cell(t) for t in v[c].tolist()] for c in v.columns]}
    return {'t': type(v).__name__}


def cell(t):
    return {'t': 'none'} if t is pd.NA or t is pd.NaT else val(t)


def fields(s):
    return {f: val(getattr(s, f)) for f in FIELDS}


def consts(s):
    return ['%s=%s' % (k, getattr(s, k)) for k in sorted(dir(s)) if k.startswith('EXIT_')]


def trip(sid, s, replace):
    e = {'e': 'result', 'id': sid, 'replace': replace, 'todict': False, 'dumps': False, 'strict': False, 'fromdict': False, 'again': False, 'untouched': True,
         'stra': '', 'strb': '', 'strexc': '', 'exc': '', 'a': fields(s), 'b': {}, 'c': {}, 'consta': consts(s), 'constb': []}
    try:
        e['stra'] = str(s)
    except Exception as ex:
        e['strexc'] = type(ex).__name__ + ': ' + str(ex)[:100]
    try:
        d = s.to_dict(replace_nan=replace) if not replace else s.to_dict()
        e['todict'] = True
        t = json.dumps(d)
        e['dumps'] = True
        try:
            json.dumps(d, allow_nan=False)
            e['strict'] = True
        except ValueError as ex:
            e['exc'] = str(ex)[:100]
        b = OptimResults.from_dict(json.loads(t))
        e['fromdict'] = True
        e['b'], e['constb'], e['strb'] = fields(b), consts(b), str(b)
        # straight from the dictionary, too, and the dictionary stays as it was
        b2 = OptimResults.from_dict(d)
        c = OptimResults.from_dict(json.loads(json.dumps(b.to_dict(replace_nan=replace))))
        e['c'] = fields(c)
        e['again'] = json.dumps(d) == t and fields(b2) == e['b']
    except Exception as ex:
        e['exc'] = type(ex).__name__ + ': ' + str(ex)[:150]
    e['untouched'] = fields(s) == e['a']
    return e


def record(scn):
    ev, s, P = rec.run(scn, limit=20.0)
    if s is None or s.flag == s.EXIT_INPUT_ERROR:
        return []
    out = []
    for k, ops in enumerate(scn['edits']):
        t = copy.deepcopy(s)
        edit(t, ops)
        for replace in ([True, False] if k < 2 else [True]):
            out.append(trip(scn['id'], t, replace))
    return out
