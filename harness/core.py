"""Driver shared by all checks: shards the recording, runs TLC on the recorded traces, collects verdicts, writes evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, 'harness')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
CLASSES = os.path.join(BUILD, 'classes')
TLA = '/opt/veriftools/tla'
PY = '/opt/venv/bin/python'


def ensure_java():
    srcs = [os.path.join(VERIF, 'java', f) for f in sorted(os.listdir(os.path.join(VERIF, 'java'))) if f.endswith('.java')]
    need = [os.path.join(CLASSES, os.path.basename(s)[:-5] + '.class') for s in srcs]
    if all(os.path.exists(c) and os.path.getmtime(c) >= os.path.getmtime(s) for s, c in zip(srcs, need)):
        return
    os.makedirs(CLASSES, exist_ok=True)
    subprocess.run(['javac', '-cp', TLA + '/tla2tools.jar', '-d', CLASSES] + srcs, check=True)


def tlc_cmd(module, cfg, metadir, workers=1, mem='2g', extra=()):
    return ['java', '-Xmx' + mem, '-Xss64m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
            '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:DfoOverrides',
            '-cp', ':'.join([CLASSES, TLA + '/tla2tools.jar', TLA + '/CommunityModules-deps.jar']),
            'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers), '-metadir', metadir, '-config', cfg] + list(extra) + [module]


def run_tlc(module, cfg, env=None, workers=1, mem='2g', extra=(), timeout=800, tag='x', rundir=BUILD):
    md = os.path.join(rundir, 'tlc_' + tag)
    shutil.rmtree(md, ignore_errors=True)
    os.makedirs(md)
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(tlc_cmd(os.path.join(SPEC, module + '.tla'), os.path.join(SPEC, cfg), md, workers, mem, extra),
                           env=e, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout.decode() if isinstance(ex.stdout, bytes) else ex.stdout or '') + '\nTIMEOUT', -9
    shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct states', out)
    gen, dist = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    return {'out': out, 'rc': rc, 'generated': gen, 'distinct': dist, 'wall': time.time() - t0}


FAIL = re.compile(r'<<\s*"FAIL",\s*"([^"]*)",\s*(\d+),\s*\{(.*?)\}\s*>>', re.S)
CNT = re.compile(r'<<\s*"CNT",\s*"([^"]*)",\s*(\d+)\s*>>')


class MachineryError(Exception):
    pass


def trace_shard(module, cfg, prop, trace, tag, rundir, timeout):
    r = run_tlc(module, cfg, {'TRACE': trace, 'PROP': prop}, tag=tag, rundir=rundir, timeout=timeout)
    if r['rc'] != 0 or 'No error has been found' not in r['out']:
        raise MachineryError('TLC failed on %s (rc %s):\n%s' % (trace, r['rc'], r['out'][-3000:]))
    return r


def load_findings(prop):
    fn = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if not os.path.exists(fn):
        return []
    return [f for f in json.load(open(fn)).get('findings', []) if f['property'] == prop]


def check(prop, tier, seed, replay=None, nshards=8):
    import importlib
    mod = importlib.import_module('plan').PLAN[prop]
    t0 = time.time()
    ensure_java()
    rundir = os.path.join(BUILD, 'run', '%s-%d' % (prop, os.getpid()))
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(rundir)
    viol = os.path.join(BUILD, 'violations', prop)
    os.makedirs(viol, exist_ok=True)
    deadline = mod['deadline'][0 if tier == 'quick' else 1]
    deadline = float(os.environ.get('DFO_DEADLINE', deadline))
    if replay:
        nshards = 1
    env = dict(os.environ, OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    fails, counts = [], {}
    tot = {'scenarios': 0, 'events': 0, 'generated': 0, 'distinct': 0}
    scn_of = {}
    tlc_timeout = 600 if tier == 'quick' else 6 * 3600

    def shard(k, words=None, nsh=nshards):
        tr = os.path.join(rundir, ('words%d.ndjson' if words else 'shard%d.ndjson') % k)
        cmd = [PY, os.path.join(HARNESS, 'worker.py'), prop, tier, str(seed), str(k), str(nsh), str(deadline), tr]
        if replay:
            cmd.append(replay)
        p = subprocess.run(cmd, env=dict(env, DFO_WORDS=words) if words else env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise MachineryError('worker %d failed:\n%s' % (k, p.stdout[-3000:]))
        s = json.load(open(tr + '.sum'))
        if s['events'] == 0:
            return tr, s, None
        return tr, s, trace_shard(mod['spec'], mod['spec'] + '.cfg', prop, tr, ('wd%d' if words else 'sh%d') % k, rundir, tlc_timeout)

    def word_shards():
        import dfolsspec
        fn, res = dfolsspec.words(prop, tier, seed, rundir)
        nw = 3 if tier == 'quick' else 8
        with ThreadPoolExecutor(max_workers=nw) as wx:
            out = list(wx.map(lambda k: shard(k, fn, nw), range(nw)))
        res += dfolsspec.conform([tr + '.abs' for tr, s, r in out], rundir, tier)
        return out, res

    extra_res = []
    with ThreadPoolExecutor(max_workers=nshards + 3) as ex:
        futs = [ex.submit(shard, k) for k in range(nshards)]
        if mod.get('extra') and not replay:
            ef = ex.submit(mod['extra'], tier, seed, rundir)
        else:
            ef = None
        wf = ex.submit(word_shards) if mod.get('words') and not replay else None

        def results():
            for fu in futs:
                yield fu.result()
            if wf is not None:
                o, res = wf.result()
                extra_res.extend(res)
                for x in o:
                    yield x
        for tr, s, r in results():
            tot['scenarios'] += s['scenarios']
            tot['events'] += s['events']
            if r is None:
                continue
            tot['generated'] += r['generated']
            tot['distinct'] += r['distinct']
            for l in open(tr + '.scn'):
                d = json.loads(l)
                scn_of[d['id']] = d['scn']
            for m in FAIL.finditer(r['out']):
                fails.append((m.group(1), int(m.group(2)), sorted(re.findall(r'"([^"]*)"', m.group(3)))))
            for m in CNT.finditer(r['out']):
                counts[m.group(1)] = counts.get(m.group(1), 0) + int(m.group(2))
        if ef is not None:
            extra_res += ef.result()
    for e in extra_res:
        tot['generated'] += e.get('generated', 0)
        tot['distinct'] += e.get('distinct', 0)
        for f in e.get('fails', []):
            fails.append(f)
            scn_of[f[0]] = {'id': f[0], 'extra': True}
    # verdict
    known = load_findings(prop)
    bad = {}
    for (sid, line, cls) in fails:
        bad.setdefault(sid, set()).update(cls)
    nviol = 0
    out = []
    for sid in sorted(bad):
        cls = sorted(bad[sid])
        kf = [f for f in known if f['scenario'] == sid and set(cls) <= set(f['clauses'])]
        if kf:
            out.append('KNOWN-FINDING: property=%s %s (%s)' % (prop, kf[0]['what'], sid))
            continue
        nviol += 1
        fn = os.path.join(viol, re.sub(r'[^A-Za-z0-9_.-]', '_', sid) + '.json')
        json.dump({'property': prop, 'clauses': cls, 'scenario': scn_of.get(sid)}, open(fn, 'w'), indent=1)
        if nviol <= 20:
            out.append('VIOLATION property=%s replay=%s' % (prop, fn))
            out.append('  scenario %s violates %s' % (sid, ', '.join(cls)))
    missing = [c for c in mod.get('need', []) if counts.get(c, 0) == 0] if not replay else []
    for l in out:
        print(l)
    if not replay:
        samples = []
        for sid in list(scn_of)[:4]:
            samples.append({'scenario': scn_of[sid] if len(json.dumps(scn_of[sid])) < 3000 else sid})
        ev = {'property': prop, 'tier': tier, 'seed': int(seed), 'level': 'model_checking',
              'coverage': {'states': tot['distinct'], 'transitions': max(0, tot['generated']),
                           'traces_validated_against_impl': tot['scenarios'], 'trace_events': tot['events'],
                           'clause_evaluations': counts,
                           'models': [{k: v for k, v in e.items() if k in ('name', 'distinct', 'generated', 'wall', 'what')}
                                      for e in extra_res],
                           'samples': samples},
              'wall_s': round(time.time() - t0, 1), 'assumptions': mod['assumptions'], 'violations': nviol}
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d scenarios, %d events, %d states, %d violations, %.1f s' %
          (prop, tier, tot['scenarios'], tot['events'], tot['distinct'], nviol, time.time() - t0))
    print('clauses: ' + ', '.join('%s=%d' % (k, v) for k, v in sorted(counts.items())))
    if missing:
        print('note: clauses never exercised: %s' % missing)
    if not os.environ.get('KEEP'):
        shutil.rmtree(rundir, ignore_errors=True)
    return 1 if nviol else 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    try:
        return check(a.prop, a.tier, a.seed, a.replay)
    except MachineryError as e:
        print('MACHINERY ERROR: %s' % e)
        return 2


if __name__ == '__main__':
    sys.path.insert(0, HARNESS)
    sys.exit(main(sys.argv[1:]))
