"""Worker: python worker.py PROP TIER SEED SHARD NSHARDS DEADLINE OUT   records its share of the scenarios to OUT (ndjson)."""
import importlib
import json
import os
import resource
import sys
import time

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DFO_REPO', '/repo')
sys.path.insert(0, REPO)


def main():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    prop, tier, seed, k, nsh, deadline, out = sys.argv[1:8]
    k, nsh, deadline = int(k), int(nsh), float(deadline)
    import dfols
    assert os.path.realpath(dfols.__file__).startswith(os.path.realpath(REPO) + os.sep), dfols.__file__
    mod = importlib.import_module('p_' + prop.lower())
    t0 = time.time()
    nscn = nev = 0
    absf, nabs = None, 0
    if os.environ.get('DFO_WORDS'):
        import words
        from dy import undy
        absf = open(out + '.abs', 'w')
    with open(out, 'w') as f, open(out + '.scn', 'w') as g:
        if len(sys.argv) > 8:
            todo = [json.load(open(sys.argv[8]))['scenario']]
        elif os.environ.get('DFO_WORDS'):
            todo = (json.loads(l) for l in open(os.environ['DFO_WORDS']))
        else:
            todo = mod.scenarios(tier, seed)
        for i, scn in enumerate(todo):
            if i % nsh != k:
                continue
            if time.time() - t0 > deadline:
                break
            evs = mod.record(scn)
            if absf is not None:
                a = words.abstract(scn, evs, undy)
                nabs += 1
                if a is not None:
                    absf.write(json.dumps(a) + '\n')
            for e in evs:
                f.write(json.dumps(e, separators=(',', ':')) + '\n')
            g.write(json.dumps({'id': scn['id'], 'scn': scn}) + '\n')
            nscn += 1
            nev += len(evs)
    if absf is not None:
        absf.close()
    json.dump({'scenarios': nscn, 'events': nev, 'wall': time.time() - t0}, open(out + '.sum', 'w'))


if __name__ == '__main__':
    main()
