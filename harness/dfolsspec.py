"""Model checking of spec/DFOLS.tla, its words for replay, and conformance of the replayed runs (used by the run properties)."""
import json
import os
import random
import re
from concurrent.futures import ThreadPoolExecutor

import words as W

# tier -> list of (case, maxfun, fin, bad)
INST = {'quick': [(c, 5, 2, 1) for c in W.CASES],
        'thorough': [(c, 7, 2, 1) for c in W.CASES] + [(c, 6, 3, 0) for c in W.CASES] + [(c, 8, 2, 0) for c in W.CASES]}
BUGS = [('nosave', 'soft', 'C04_Best'), ('restartnosave', 'soft', 'C04_Best'), ('hardnan', 'hard', 'C04_Best'), ('budget', 'none', 'C02_Budget'),
        ('rhoend', 'none', 'C10_Rhoend'), ('nonfinite', 'hard', 'C10_Success')]


def words(prop, tier, seed, rundir):
    import core
    inst = INST[tier]

    def one(i):
        c, mf, fin, bad = inst[i]
        env = {'CASE': c, 'MAXFUN': str(mf), 'FIN': str(fin), 'BAD': str(bad), 'BUG': 'x'}
        r = core.run_tlc('MC_DFOLS', 'MC_DFOLSWords.cfg', env, workers=2, mem='3g', tag='mc%d' % i, rundir=rundir,
                         timeout=300 if tier == 'quick' else 3000)
        if r['rc'] != 0 or 'No error has been found' not in r['out']:
            raise core.MachineryError('TLC failed on MC_DFOLS %s:\n%s' % (env, r['out'][-2000:]))
        return r
    with ThreadPoolExecutor(max_workers=4) as ex:
        rs = list(ex.map(one, range(len(inst))))
    res, todo = [], []
    for (c, mf, fin, bad), r in zip(inst, rs):
        ws = W.parse(r['out'])
        res.append({'name': 'DFOLS/%s' % c, 'distinct': r['distinct'], 'generated': r['generated'], 'wall': round(r['wall'], 1),
                    'what': 'run control, maxfun %d, levels 0..%d%s; %d maximal words' %
                            (mf, fin, ' and inf, NaN' if bad else '', sum(len(w) for w in ws.values()))})
        for cid in sorted(ws):
            todo += [(cid, mf, w) for w in ws[cid]]
    random.Random('%s:%s' % (prop, seed)).shuffle(todo)
    if tier == 'quick':
        todo = todo[:1500]
    else:
        todo = todo[:60000]
    fn = os.path.join(rundir, 'words.ndjson')
    with open(fn, 'w') as f:
        for (cid, mf, w) in todo:
            f.write(json.dumps(W.scenario(cid, mf, w, seed)) + '\n')
    if tier == 'thorough':
        for (bug, c, inv) in BUGS:
            env = {'CASE': c, 'MAXFUN': '5', 'FIN': '2', 'BAD': '1', 'BUG': bug}
            r = core.run_tlc('MC_DFOLS', 'MC_DFOLS.cfg', env, workers=4, mem='3g', tag='bug', rundir=rundir, timeout=600)
            if inv not in r['out'] or 'is violated' not in r['out']:
                raise core.MachineryError('the invariants of DFOLS do not see the wrong variant %s' % bug)
            res.append({'name': 'DFOLS/%s with %s' % (c, bug), 'distinct': r['distinct'], 'generated': r['generated'], 'wall': round(r['wall'], 1),
                        'what': 'wrong variant, %s is violated as it must be' % inv})
        for c in W.CASES:
            env = {'CASE': c, 'MAXFUN': '5', 'FIN': '1', 'BAD': '1', 'BUG': 'x'}
            r = core.run_tlc('MC_DFOLS', 'MC_DFOLSLive.cfg', env, workers=4, mem='4g', tag='live', rundir=rundir, timeout=1200)
            if r['rc'] != 0 or 'No error has been found' not in r['out']:
                raise core.MachineryError('TLC failed on the liveness of MC_DFOLS %s:\n%s' % (c, r['out'][-2000:]))
            res.append({'name': 'DFOLS/%s liveness' % c, 'distinct': r['distinct'], 'generated': r['generated'], 'wall': round(r['wall'], 1),
                        'what': 'every behaviour ends (weak fairness of Next)'})
    return fn, res


def conform(files, rundir, tier):
    """how many of the replayed runs are behaviours of DFOLS (reported, never an alarm)"""
    import core
    recs = []
    for f in files:
        recs += [json.loads(l) for l in open(f)]
    recs = [r for r in recs if r['hist'] and len(r['hist']) <= 9]
    recs = recs[:400 if tier == 'quick' else 6000]
    if not recs:
        return []
    fn = os.path.join(rundir, 'conform.ndjson')
    with open(fn, 'w') as f:
        for r in recs:
            f.write(json.dumps(r) + '\n')
    r = core.run_tlc('DFOLSTrace', 'DFOLSTrace.cfg', {'TRACE': fn, 'FIN': '3', 'BUG': 'x'}, workers=2, mem='3g', tag='conf', rundir=rundir,
                     timeout=300 if tier == 'quick' else 3000)
    acc = set(int(t) for t in re.findall(r'<<"ACC", (\d+)>>', r['out']))
    if r['rc'] != 0 or 'No error has been found' not in r['out']:
        return [{'name': 'DFOLSTrace', 'what': 'conformance not decided (TLC: %s)' % r['out'][-300:]}]
    no = [recs[i]['id'] for i in range(len(recs)) if i + 1 not in acc]
    d = {'name': 'DFOLSTrace', 'distinct': r['distinct'], 'generated': r['generated'], 'wall': round(r['wall'], 1),
         'what': '%d of %d replayed runs of the real solver are behaviours of DFOLS' % (len(acc), len(recs))}
    if no:
        d['what'] += '; not: ' + ', '.join(no[:10])
        print('note: %s' % d['what'])
    return [d]
