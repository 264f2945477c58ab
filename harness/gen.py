"""Scenario generation for whole runs of dfols.solve. Everything is derived from random.Random(seed string)."""
import math
import random


def ugly(r, s=1.0):
    return r.uniform(-1, 1) * s * 10 ** r.randint(-1, 1)


def lin_prob(r, n, m=None):
    m = m or n + r.randint(0, 3)
    A = [[round(r.uniform(-2, 2), r.choice([1, 2, 15])) for _ in range(n)] for _ in range(m)]
    for i in range(min(n, m)):
        A[i][i] += 2.0 * (1 if r.random() < 0.8 else -1)
    b = [r.uniform(-2, 2) for _ in range(m)]
    return {'kind': 'linear', 'A': A, 'b': b}


def problem(r, n):
    c = ['linear', 'linear', 'rosenn', 'expfit', 'trig', 'quad', 'quad', 'abs', 'wave']
    if n == 2:
        c += ['rosen', 'rosen']
    if n == 4:
        c += ['powell']
    if r.random() < 0.06:
        c = ['const', 'jump']
    k = r.choice(c)
    if k == 'linear':
        return lin_prob(r, n, None if r.random() < 0.85 else max(1, n - 1))
    if k in ('quad', 'abs'):
        return {'kind': k, 'n': n, 'm': max(1, n + r.randint(-1, 3)), 'seed': r.randint(0, 999)}
    if k == 'expfit':
        return {'kind': k, 'm': r.choice([4, 6, 12])}
    if k == 'wave':
        return {'kind': k, 'n': n}
    if k == 'const':
        return {'kind': k, 'm': n + 1, 'v': r.choice([1.0, 0.3])}
    return {'kind': k}


WORDS = ['better', 'better', 'better', 'worse', 'worse', 'bad', 'tie', 'bit']


def script(r, n, length=60, extra=()):
    w = [r.choice(WORDS + list(extra)) for _ in range(length)]
    return {'kind': 'script', 'word': w, 'm': n + r.randint(0, 2), 'tail': r.choice(['worse', 'bad', 'tie', 'better']),
            'seed': r.randint(0, 999), 'start': r.choice([100.0, 1.0, 1e-6, 1e8])}


def bounds(r, scn, n, rhobeg, kind=None):
    """sets x0, lo, hi of scn; returns rhobeg"""
    kind = kind or r.choice(['none', 'none', 'both', 'both', 'both', 'lower', 'upper', 'tight', 'mixed'])
    s = r.choice([1.0, 1.0, 1.0, 3.7, 100.0])
    x0 = [ugly(r, 0.5 * s) for _ in range(n)]
    if kind != 'none':
        lo, hi = [], []
        for i in range(n):
            if kind == 'tight' and r.random() < 0.7:
                w = 2 * rhobeg * (1 + r.choice([1e-12, 1e-6, 0.01, 0.3, 1.0]))
            else:
                w = 2 * rhobeg * (1 + r.expovariate(0.3))
            pos = r.choice(['in', 'in', 'lo', 'hi', 'hairlo', 'hairhi', 'inflo', 'infhi', 'any', 'far', 'outlo', 'outhi'])
            if pos == 'lo':
                a = x0[i]
            elif pos == 'hi':
                a = x0[i] - w
            elif pos == 'hairlo':
                a = x0[i] - r.choice([1e-15, 1e-12, 1e-9, 1e-5, 0.011, 0.5]) * rhobeg
            elif pos == 'hairhi':
                a = x0[i] - w + r.choice([1e-15, 1e-12, 1e-9, 1e-5, 0.011, 0.5]) * rhobeg
            elif pos == 'outlo':  # infeasible by a hair
                a = r.choice([math.nextafter(x0[i], math.inf), x0[i] + abs(x0[i]) * 10.0 ** r.uniform(-15, -6), x0[i] + rhobeg * 1e-9])
            elif pos == 'outhi':
                a = r.choice([math.nextafter(x0[i], -math.inf), x0[i] - abs(x0[i]) * 10.0 ** r.uniform(-15, -6), x0[i] - rhobeg * 1e-9]) - w
            elif pos == 'inflo':
                a = x0[i] + r.uniform(0, 2) * rhobeg
            elif pos == 'infhi':
                a = x0[i] - w - r.uniform(0, 2) * rhobeg
            elif pos == 'far':
                a = x0[i] - 50 * w
                w = 100 * w
            else:
                a = x0[i] - r.random() * w
            lo.append(a)
            hi.append(a + w)
            while hi[-1] - lo[-1] < 2 * rhobeg:
                hi[-1] += w * 1e-15 + abs(hi[-1]) * 2.3e-16
        if kind == 'mixed':
            for i in range(n):
                t = r.random()
                if t < 0.3:
                    lo[i] = -math.inf
                elif t < 0.6:
                    hi[i] = math.inf
            if any(math.isinf(v) for v in lo + hi):
                lo = [v if not math.isinf(v) else -1e20 for v in lo]
                hi = [v if not math.isinf(v) else 1e20 for v in hi]
        if kind != 'upper':
            scn['lo'] = lo
        if kind != 'lower':
            scn['hi'] = hi
    scn['x0'] = x0
    return kind


def restarts(r, p, soft=None):
    p['restarts.use_restarts'] = True
    soft = r.random() < 0.6 if soft is None else soft
    p['restarts.use_soft_restarts'] = soft
    if r.random() < 0.6:
        p['restarts.max_unsuccessful_restarts'] = r.choice([0, 1, 1, 2, 3, 5])
    if r.random() < 0.4:
        p['restarts.rhoend_scale'] = r.choice([1.0, 0.5, 0.1, 0.01])
    if r.random() < 0.4:
        p['restarts.soft.num_geom_steps'] = r.choice([0, 1, 2, 5])
    if r.random() < 0.4:
        p['restarts.soft.move_xk'] = False
    if r.random() < 0.3:
        p['restarts.hard.use_old_rk'] = False
    if r.random() < 0.3:
        p['restarts.increase_npt'] = True
        p['restarts.increase_npt_amt'] = r.choice([1, 2])
    if r.random() < 0.3:
        p['restarts.auto_detect'] = False
    elif r.random() < 0.4:
        p['restarts.auto_detect.history'] = r.choice([3, 5])
        p['restarts.auto_detect.min_chgJ_slope'] = r.choice([0.0, 1e-3])
        p['restarts.auto_detect.min_correl'] = 0.0
    if r.random() < 0.2:
        p['restarts.soft.max_fake_successful_steps'] = r.choice([1, 2, 3])
    if r.random() < 0.3:
        p['restarts.hard.increase_ndirs_initial_amt'] = r.choice([0, 2])
    return soft


def growing(r, p, n, npt):
    p['growing.ndirs_initial'] = r.randint(1, max(1, npt - 1))
    if r.random() < 0.4:
        p['growing.num_new_dirns_each_iter'] = r.choice([1, 2])
    if r.random() < 0.3:
        p['growing.full_rank.use_full_rank_interp'] = False
        p['growing.perturb_trust_region_step'] = r.random() < 0.6
    if r.random() < 0.3:
        p['growing.delta_scale_new_dirns'] = r.choice([0.1, 0.5])
    if r.random() < 0.3:
        p['growing.do_geom_steps'] = True
    t = r.random()
    if t < 0.2:
        p['growing.reset_delta'] = True
        if r.random() < 0.5:
            p['growing.reset_rho'] = True
    t = r.random()
    if t < 0.2:
        p['growing.safety.reduce_delta'] = True
    elif t < 0.4:
        p['growing.safety.full_geom_step'] = True
    elif t < 0.5:
        p['growing.safety.do_safety_step'] = False


BASE = dict(n=[1, 2, 2, 2, 3, 3, 4], script=0.25, noise=0.1, noisefn=0.12, scaling=0.25, npt=0.3, restarts=0.45, soft=None,
            growing=0.2, regr=0.15, randinit=0.12, nsamp=0.2, h=0.12, proj=0.08, fault=0.0, raises=0.2, themes=0.35, diag=0.0, words=(),
            budget=None, slow=0.25, bkind=None, big=0.0, nolog=0.0, minor=0.25, la=0.04, tols=0.1, quitnoise=0.1)


def projections(r, scn, n, rhobeg):
    c = scn['x0']
    ps = []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        # all sets contain the common point q
        k = r.choice(['ball', 'half', 'box', 'ball', 'plane'])
        q = scn.setdefault('_q', [v + r.choice([0.0, 1.0]) * ugly(r, rhobeg) for v in c])
        if k == 'ball':
            rad = rhobeg * r.choice([2.0, 5.0, 20.0])
            d = [r.gauss(0, 1) for _ in range(n)]
            nd = math.sqrt(sum(t * t for t in d)) or 1.0
            cc = [q[i] + d[i] / nd * rad * r.uniform(0, 0.9) for i in range(n)]
            ps.append({'kind': 'ball', 'c': cc, 'r': rad})
        elif k == 'half':
            a = [r.gauss(0, 1) for _ in range(n)]
            ps.append({'kind': 'half', 'a': a, 'b': sum(a[i] * q[i] for i in range(n)) + r.choice([0.0, 0.1, 1.0]) * rhobeg})
        elif k == 'plane' and n > 1:
            a = [r.gauss(0, 1) for _ in range(n)]
            ps.append({'kind': 'plane', 'a': a, 'b': sum(a[i] * q[i] for i in range(n))})
        else:
            w = [rhobeg * r.uniform(1, 10) for _ in range(n)]
            ps.append({'kind': 'box', 'lo': [q[i] - w[i] * r.random() for i in range(n)],
                       'hi': [q[i] + w[i] * r.random() for i in range(n)]})
    q = scn.pop('_q', c)
    scn['proj'] = ps
    scn.pop('lo', None)
    scn.pop('hi', None)
    if r.random() < 0.5:
        scn['lo'] = [q[i] - rhobeg * r.uniform(2, 8) for i in range(n)]
        scn['hi'] = [q[i] + rhobeg * r.uniform(2, 8) for i in range(n)]


def minor(r, scn, p):
    """less used numerical parameters, inside their documented ranges"""
    T = {'general.rounding_error_constant': [0.0, 1.0, 10.0, 1e4, 1e4], 'general.safety_step_thresh': [0.0, 0.1, 0.9, 1.5],
         'general.check_objfun_for_overflow': [False], 'interpolation.precondition': [False, False],
         'tr_radius.eta1': [0.0, 0.01, 0.3, 0.6], 'tr_radius.eta2': [0.5, 0.9, 0.2, 1.0], 'tr_radius.gamma_dec': [0.1, 0.9, 0.98],
         'tr_radius.gamma_inc': [1.0, 1.5, 10.0, 1e4], 'tr_radius.gamma_inc_overline': [1.0, 2.0, 10.0],
         'tr_radius.alpha1': [0.001, 0.5, 0.9], 'tr_radius.alpha2': [0.1, 0.9, 1.0], 'growing.gamma_dec': [0.1, 0.9],
         'growing.full_rank.min_sing_val': [0.0, 1e-2], 'growing.full_rank.svd_scale_factor': [0.1, 0.0], 'growing.full_rank.svd_max_jac_cond': [1e2],
         'growing.full_rank.scale_factor': [1.0], 'matrix_rank.r_tol': [1e-12], 'func_tol.criticality_measure': [0.1], 'func_tol.tr_step': [0.5],
         'sfista.max_iters_scaling': [1.0, 4.0], 'logging.n_to_print_whole_x_vector': [0, 1, 20], 'logging.save_xk': [True], 'logging.save_rk': [True]}
    for k in r.sample(sorted(T), r.choice([1, 1, 2, 3, 6])):
        p.setdefault(k, r.choice(T[k]))
    if r.random() < 0.3:
        p['general.rounding_error_constant'] = r.choice([1.0, 1e4])


def theme(r, scn, n, npt, c):
    """correlated options which rarely occur together otherwise"""
    o, p = scn['opts'], scn['params']
    t = r.choice(['hardavg', 'softinc', 'softinc', 'smalltol', 'smalltol', 'manyruns', 'growavg', 'noiselevel', 'rhoendavg'])
    scn['theme'] = t
    ns = r.choice([{'kind': 'const', 'k': 2}, {'kind': 'const', 'k': 3}, {'kind': 'cyc', 'seq': [1, 3, 0, 2]}, {'kind': 'runs', 'k': 2}])
    heavy = 'h' in scn or 'proj' in scn
    if t in ('hardavg', 'softinc', 'manyruns', 'rhoendavg'):
        p['restarts.use_restarts'] = t != 'rhoendavg'
        p['restarts.use_soft_restarts'] = t == 'softinc' or (t == 'manyruns' and r.random() < 0.5)
        o['rhoend'] = o['rhobeg'] * r.choice([0.5, 0.3, 0.1])
        o['maxfun'] = r.randint(npt + 1, max(30 if heavy else 120, npt + 6))
        p['slow.max_slow_iters'] = r.choice([1, 2, 20])
        p['slow.history_for_slow'] = r.choice([1, 2, 5])
    if t == 'hardavg':
        p['restarts.hard.use_old_rk'] = r.random() < 0.3
        scn['nsamp'] = ns
    if t == 'softinc':
        p['restarts.increase_npt'] = True
        p['restarts.increase_npt_amt'] = r.choice([1, 2, 3])
        p['restarts.max_npt'] = npt + r.randint(1, 8)
        if r.random() < 0.7:
            scn['nsamp'] = ns
    if t == 'manyruns':
        p['restarts.max_unsuccessful_restarts'] = r.choice([1, 2, 3, 4])
        p['restarts.rhoend_scale'] = r.choice([1.0, 0.5])
    if t in ('softinc', 'hardavg', 'rhoendavg', 'growavg') and scn['prob']['kind'] != 'script' and r.random() < 0.7:
        scn.setdefault('noisefn', {'seed': r.randint(0, 999), 'mult': 0.0, 'add': r.choice([1e-3, 0.05, 0.5])})
    if t == 'rhoendavg':
        scn['nsamp'] = ns
    if t == 'smalltol':
        if r.random() < 0.7:
            scn['prob'] = r.choice([{'kind': 'rosenn'}, {'kind': 'trig'}, lin_prob(r, n, n)])
        if r.random() < 0.6:
            p['model.abs_tol'] = 10.0 ** r.uniform(-5, 1)
        else:
            p['model.rel_tol'] = 10.0 ** r.uniform(-3, -0.05)
        if r.random() < 0.6:
            scn['nsamp'] = ns
            if scn['prob']['kind'] != 'script':
                scn['noisefn'] = {'seed': r.randint(0, 999), 'mult': 0.0, 'add': 10.0 ** r.uniform(-3, 0)}
    if t == 'growavg':
        if npt > 2:
            growing(r, p, n, npt)
        scn['nsamp'] = ns
    if t == 'noiselevel':
        p['noise.quit_on_noise_level'] = True
        p.pop('noise.multiplicative_noise_level', None)
        p['noise.additive_noise_level'] = 10.0 ** r.uniform(-3, 2)
        if r.random() < 0.5:
            p['restarts.use_restarts'] = True
    if c['nsamp'] == 0.0:
        scn.pop('nsamp', None)
    if c['noisefn'] == 0.0:
        scn.pop('noisefn', None)


def run_scenario(prop, seed, idx, **over):
    r = random.Random('%s:%s:%s' % (prop, seed, idx))
    r2 = random.Random('minor:%s:%s:%s' % (prop, seed, idx))
    if r2.random() < 0.03 and 'n' not in over:
        return run_scenario(prop, seed, idx, n=[5, 6, 7, 8], **over)
    c = dict(BASE)
    c.update(over)
    n = r.choice(c['n'])
    o, p = {}, {}
    scn = {'id': '%s-%s-%d' % (prop, seed, idx), 'opts': o, 'params': p, 'seed': r.randint(0, 10 ** 6)}
    rhobeg = r.choice([0.1, 0.1, 0.3, 1.0, 0.01, 0.07])
    scaling = r.random() < c['scaling']
    o['rhobeg'] = rhobeg
    kind = c['bkind'] or (r.choice(['both', 'both', 'tight']) if scaling else None)
    bounds(r, scn, n, rhobeg, kind)
    if scaling:
        if 'lo' in scn and 'hi' in scn:
            o['scaling'] = True
            o['rhobeg'] = r.choice([0.1, 0.1, 0.25, 0.5, 0.499])
    t = r.random()
    o['rhoend'] = o['rhobeg'] * r.choice([1e-1, 1e-2, 1e-3, 1e-3, 1e-4, 1e-5, 1e-7])
    npt = n + 1
    if r.random() < c['npt']:
        npt = r.choice([n + 2, 2 * n + 1, (n + 1) * (n + 2) // 2, n + 3])
        o['npt'] = npt
    b = r.choice(c['budget'] or ['tiny', 'small', 'small', 'mid', 'mid', 'big'])
    o['maxfun'] = {'tiny': r.randint(1, npt + 2), 'small': r.randint(npt + 1, max(25, npt + 6)), 'mid': r.randint(25, 70),
                   'big': r.randint(70, 150), 'huge': r.randint(150, 400)}[b]
    scn['prob'] = script(r, n, 80, c['words']) if r.random() < c['script'] else problem(r, n)
    if scn['prob']['kind'] != 'script' and r.random() < c['noisefn']:
        scn['noisefn'] = {'seed': r.randint(0, 999), 'mult': r.choice([0.0, 1e-2, 1e-5]), 'add': r.choice([1e-3, 1e-2, 0.1])}
    if r.random() < c['noise']:
        o['noise'] = True
    if r.random() < c['restarts']:
        restarts(r, p, c['soft'])
        if 'restarts.increase_npt' in p:
            p['restarts.max_npt'] = npt + r.choice([0, 1, 3, 6])
    if npt > 2 and r.random() < c['growing'] or (npt == 2 and r.random() < 0.02):
        growing(r, p, n, npt)
    if r.random() < c['regr']:
        p['regression.num_extra_steps'] = r.choice([1, 1, 2])
        p['regression.momentum_extra_steps'] = r.random() < 0.4
        if r.random() < 0.3:
            p['regression.increase_num_extra_steps_with_restart'] = 1
    if r.random() < c['randinit']:
        p['init.random_initial_directions'] = True
        if r.random() < 0.5:
            p['init.run_in_parallel'] = True
        if r.random() < 0.3:
            p['init.random_directions_make_orthogonal'] = False
    if r.random() < c['nsamp']:
        scn['nsamp'] = r.choice([{'kind': 'const', 'k': 2}, {'kind': 'const', 'k': 3}, {'kind': 'iter', 'k': 3},
                                 {'kind': 'runs', 'k': 2}, {'kind': 'rho', 'k': 4},
                                 {'kind': 'cyc', 'seq': [1, 3, 0, 2]}, {'kind': 'cyc', 'seq': [2, 1, -1, 4, 1]}])
    if r.random() < c['slow']:
        p['slow.max_slow_iters'] = r.choice([1, 2, 4])
        p['slow.history_for_slow'] = r.choice([1, 2, 3])
        p['slow.thresh_for_slow'] = r.choice([1e-4, 1e-2, 0.5])
    if r.random() < c['quitnoise']:
        p['noise.quit_on_noise_level'] = True
        if r.random() < 0.5:
            p['noise.multiplicative_noise_level'] = r.choice([1e-2, 1e-1, 1e-6])
        else:
            p['noise.additive_noise_level'] = r.choice([1e-2, 1e-1, 1e-6])
        if r.random() < 0.3:
            p['noise.scale_factor_for_quit'] = r.choice([0.5, 2.0])
    if r.random() < c['tols']:
        if r.random() < 0.5:
            p['model.abs_tol'] = r.choice([1e-8, 1e-4, 0.1])
        else:
            p['model.rel_tol'] = r.choice([1e-4, 0.1, 0.9])
    if r.random() < c['h']:
        k = r.choice(['l1', 'l1w', 'l2', 'linf'])
        if k == 'l1w':
            scn['h'] = {'kind': k, 'w': [r.choice([0.0, 0.1, 1.0]) for _ in range(n)], 'c': [r.choice([0.0, 0.3]) for _ in range(n)]}
            scn['h']['w'][0] = 0.5
        else:
            scn['h'] = {'kind': k, 'lam': r.choice([0.1, 1.0]), 'n': n}
        bounded = 'lo' in scn or 'hi' in scn
        o['maxfun'] = min(o['maxfun'], 14 if bounded else 25)
        p['func_tol.max_iters'] = r.choice([1, 5, 20]) if bounded else r.choice([5, 50, 200])
    if r.random() < c['proj'] and not o.get('scaling'):
        projections(r, scn, n, rhobeg)
        o['maxfun'] = min(o['maxfun'], 25)
        # projections without random options only part of the time
        if r.random() < 0.3:
            p['dykstra.max_iters'] = r.choice([1, 2, 20])
        if r.random() < 0.3:
            p['dykstra.d_tol'] = r.choice([1e-6, 1e-14])
    if r.random() < c['big'] and kind is None and not o.get('scaling') and 'proj' not in scn:
        # large offset
        off = 10.0 ** r.randint(3, 7)
        scn['x0'] = [v + off for v in scn['x0']]
        for k in ('lo', 'hi'):
            if k in scn:
                scn[k] = [v + off if abs(v) < 1e19 else v for v in scn[k]]
    if r.random() < c['fault']:
        k = r.choice(['nan', 'inf', 'ninf', 'big', 'huge', 'big150', 'nan', 'bignc'])
        if r.random() < c['raises']:
            k = r.choice(['raise', 'raise_ve', 'raise_la', 'raise_la', 'raise_of', 'raise_rt', 'raise_zd', 'raise_fp', 'raise_ae', 'raise_ki',
                          'raise_ie', 'raise_te', 'raise_si', 'raise_ub'])
        scn['fault'] = {'fault': k, 'whole': r.random() < 0.5, 'comp': r.randint(0, 3)}
        if r.random() < 0.8:
            scn['fault']['at'] = [r.randint(1, o['maxfun'])]
        else:
            scn['fault']['from'] = r.randint(1, o['maxfun'])
    if r.random() < c['themes']:
        theme(r, scn, n, npt, c)
    if r.random() < c['diag']:
        p['logging.save_diagnostic_info'] = True
        if r.random() < 0.5:
            p['logging.save_poisedness'] = False
    if r.random() < c['nolog']:
        scn['dolog'] = False
    if r2.random() < c['minor']:
        minor(r2, scn, p)
    heavy = 'h' in scn or 'proj' in scn
    if r2.random() < 0.03 and not o.get('scaling') and ('lo' not in scn or 'hi' not in scn or 'proj' in scn):
        o['scaling'] = True  # ignored with a warning
    if r2.random() < 0.02:
        rb = 0.1 if o.get('scaling') and 'lo' in scn and 'hi' in scn and 'proj' not in scn else 0.1 * max([abs(v) for v in scn['x0']] + [1.0])
        if not ('lo' in scn and 'hi' in scn) or o.get('scaling') or min(b - a for a, b in zip(scn['lo'], scn['hi'])) >= 2.1 * rb:
            o.pop('rhobeg')
            o['rhoend'] = min(o['rhoend'], rb / 2)
    if r2.random() < 0.02 and not heavy:
        o.pop('maxfun')
    if 'h' in scn and r2.random() < 0.4:
        scn['h']['wt'] = r2.choice([0.25, 3.0, 0.01])
    if r2.random() < 0.04:
        scn['progress'] = True
    if r2.random() < c['la'] and 'fault' not in scn:
        scn['la'] = {'fn': r2.choice(['solve_triangular', 'solve_triangular', 'solve_triangular', 'svd']),
                     'at': [int(10 ** r2.uniform(0, 2.6))]}
        if r2.random() < 0.2:
            scn['la']['at'] = list(range(scn['la']['at'][0], scn['la']['at'][0] + r2.choice([2, 30])))
        if r2.random() < 0.7 and 'restarts.use_restarts' not in p:
            restarts(r2, p, True)
            p['restarts.max_npt'] = npt + 2
    if 'lo' in scn and 'hi' in scn and 'rhobeg' in o:
        gap = min(b - a for a, b in zip(scn['lo'], scn['hi']))
        if not o.get('scaling') and gap < 2 * o['rhobeg']:
            o['rhobeg'] = gap * 0.4999
            o['rhoend'] = o['rhobeg'] * 1e-3
    if not p:
        scn.pop('params')
    return scn
