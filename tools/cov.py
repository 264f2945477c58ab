"""cov.py PROP SEED SECONDS [NSHARDS] : line coverage of dfols by the scenarios of a property (shard 0 of NSHARDS), as lines never executed, per function"""
import ast, importlib, os, sys, time
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/harness'); sys.path.insert(0, '/repo')
mon = sys.monitoring
seen = set()
def line(code, ln):
    if '/repo/dfols/' in code.co_filename:
        seen.add((code.co_filename, ln))
    return mon.DISABLE
mon.use_tool_id(3, 'cov')
mon.register_callback(3, mon.events.LINE, line)
mon.set_events(3, mon.events.LINE)
import dfols
def run(prop, seed, secs, nsh):
    mod = importlib.import_module('p_' + prop.lower())
    t0, n = time.time(), 0
    for i, scn in enumerate(mod.scenarios('quick', seed)):
        if i % nsh:
            continue
        if time.time() - t0 > secs:
            break
        mod.record(scn); n += 1
    return n
def executable(path):
    co = compile(open(path).read(), path, 'exec')
    out, st = {}, [(co, '')]
    while st:
        c, q = st.pop()
        for _, _, ln in c.co_lines():
            if ln and c.co_name != '<module>':
                out.setdefault(ln, c.co_name)
        st += [(k, q) for k in c.co_consts if hasattr(k, 'co_code')]
    return out
if __name__ == '__main__':
    props, seed, secs = sys.argv[1].split(','), int(sys.argv[2]), float(sys.argv[3])
    nsh = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    for p in props:
        print(p, run(p, seed, secs, nsh), 'scenarios')
    for f in ['solver', 'controller', 'model', 'trust_region', 'util', 'diagnostic_info', 'params']:
        path = '/repo/dfols/%s.py' % f
        src = open(path).read().splitlines()
        ex = executable(path)
        miss = [l for l in sorted(ex) if (path, l) not in seen and not src[l - 1].strip().startswith('def ')]
        print('== %s: %d of %d lines not executed' % (f, len(miss), len(ex)))
        for l in miss:
            print('   %4d %s: %s' % (l, ex[l], src[l - 1].strip()[:110]))
