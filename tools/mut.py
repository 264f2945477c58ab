"""mut.py FILE [ID...] : mutation trial. FILE defines M = [(id, [props], file, old, new), ...] (edits may be a list of (file, old, new)).
For each mutant: scratch copy of /repo, apply, run the tests, run the quick checks of its properties (DFO_REPO); prints caught/missed."""
import os, runpy, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = runpy.run_path(sys.argv[1])['M']
only = sys.argv[2:]
for m in M:
    mid, props = m[0], m[1]
    edits = m[2] if isinstance(m[2], list) else [tuple(m[2:5])]
    if only and mid not in only:
        continue
    tmp = tempfile.mkdtemp(prefix='mu_')
    try:
        R = tmp + '/r'
        subprocess.run('cp -a /repo %s && cd %s && git checkout -q -- .' % (R, R), shell=True, check=True)
        bad = False
        for f, old, new in edits:
            p = os.path.join(R, 'dfols', f)
            s = open(p).read()
            if s.count(old) != 1:
                print(mid, 'EDIT', s.count(old), repr(old)[:80], flush=True); bad = True; break
            open(p, 'w').write(s.replace(old, new))
        if bad:
            continue
        t = subprocess.run('cd %s && PYTHONPATH=%s /opt/venv/bin/python -B -m pytest -q -p no:cacheprovider dfols 2>&1 | tail -3' % (R, R), shell=True, stdout=subprocess.PIPE, text=True).stdout.strip().splitlines()[-1]
        tests = 'tests-fail' if 'failed' in t or 'error' in t else 'tests-ok'
        for P in props:
            t0 = time.time()
            p = subprocess.run(['./check', P], cwd=V, env=dict(os.environ, DFO_REPO=R), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ls = p.stdout.splitlines()
            cl = sorted(set(l.split(' violates ')[1].strip()[:30] for l in ls if ' violates ' in l))
            print(mid, P, tests, 'CAUGHT' if p.returncode == 1 else 'MISSED' if p.returncode == 0 else 'ERROR rc %d' % p.returncode, '%.0fs' % (time.time() - t0), cl[:4], flush=True)
            if p.returncode not in (0, 1):
                print(p.stdout[-800:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
