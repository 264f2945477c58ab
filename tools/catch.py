"""catch.py [--tier T] ID... : runs the check of the property of each planted bug against a scratch copy with the bug (DFO_REPO); prints caught/missed"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tier = 'quick'
if args and args[0] == '--tier':
    tier = args[1]; args = args[2:]
ids = args or sorted(os.listdir(V + '/seeded'))
for sid in ids:
    m = json.load(open('%s/seeded/%s/meta.json' % (V, sid)))
    tmp = tempfile.mkdtemp(prefix='ct_')
    try:
        subprocess.run('cp -a /repo %s/r && cd %s/r && git checkout -q -- . && git apply %s/seeded/%s/patch.diff' % (tmp, tmp, V, sid), shell=True, check=True)
        t = time.time()
        p = subprocess.run(['./check', m['property'], '--tier', tier], cwd=V, env=dict(os.environ, DFO_REPO=tmp + '/r'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ls = p.stdout.splitlines()
        vio = [l for l in ls if l.startswith('VIOLATION')]
        cl = [l.strip() for l in ls if ' violates ' in l]
        print(sid, m['property'], 'CAUGHT' if p.returncode == 1 and vio else 'MISSED' if p.returncode == 0 else 'ERROR rc %d' % p.returncode, len(vio), '%.0fs' % (time.time() - t),
              cl[0].split('violates')[1][:80] if cl else '', flush=True)
        rf = V + '/tools/catch.json'
        res = json.load(open(rf)) if os.path.exists(rf) else {}
        res[sid] = {'result': 'caught' if p.returncode == 1 and vio else 'missed', 'clause': (cl[0].split('violates')[1].split()[0].strip(':,') if cl else '')}
        json.dump(res, open(rf, 'w'), indent=1, sort_keys=True)
        if p.returncode not in (0, 1):
            print(p.stdout[-1500:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
