"""mkseed.py ID...  : builds /verif/seeded/ID from tools/seeds/ID.py (variables prop, needs, breaks, edits=[(file, old, new)], demo) and
verifies it in a scratch copy of /repo: applies, tests pass, demo 0 unpatched / nonzero patched."""
import json, os, shutil, subprocess, sys, runpy, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


for sid in sys.argv[1:]:
    d = runpy.run_path(os.path.join(V, 'tools', 'seeds', sid + '.py'))
    tmp = tempfile.mkdtemp(prefix='sd_')
    try:
        sh('cp -a /repo %s/r' % tmp)
        R = tmp + '/r'
        sh('git checkout -q -- .', cwd=R)
        for (f, old, new) in d['edits']:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', cwd=R).stdout
        root = sh('git rev-list --max-parents=0 HEAD', cwd=R).stdout.strip()
        for (f, old, new) in d['edits']:
            orig = set(sh('git show %s:%s' % (root, f), cwd=R).stdout.splitlines())
            mine = [l for l in old.splitlines() if l not in new.splitlines() and l not in orig]
            if mine:
                print(sid, 'NOTE: changes lines of a fix commit:', mine[:2])
        out = os.path.join(V, 'seeded', sid)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        shutil.copy(os.path.join(V, 'tools', 'dm.py'), out + '/dm.py')
        open(out + '/demo.py', 'w').write('from dm import *\n' + d['demo'].strip() + '\ndone()\n')
        json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        t = sh('cd %s && PYTHONPATH=%s /opt/venv/bin/python -B -m pytest -q -x -p no:cacheprovider dfols 2>&1 | tail -3' % (R, R))
        t0 = sh('bash %s/demo.sh' % out, cwd='/repo', timeout=280)
        t1 = sh('bash %s/demo.sh' % out, cwd=R, timeout=280)
        ok = 'passed' in t.stdout and 'failed' not in t.stdout and t0.returncode == 0 and t1.returncode != 0
        print(sid, 'OK' if ok else 'BAD', '| tests:', t.stdout.strip().splitlines()[-1][:80], '| clean rc', t0.returncode, '| patched rc', t1.returncode,
              t1.stdout.strip().splitlines()[-1][:160] if t1.stdout.strip() else '')
        if not ok:
            print(t0.stdout[-500:], t.stdout[-500:])
            shutil.rmtree(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
