prop='C09'
needs='bounds together with a user set, a step which ends where the sets only touch up to the tolerance'
breaks='the bound box is projected first instead of last, so evaluated points are outside the bounds by up to the tolerance'
edits=[('dfols/solver.py','''        projections.append(bproj)
''','''        projections.insert(0, bproj)
''')]
demo='''
for seed in range(12):
    rng = np.random.RandomState(seed)
    n = 2 + seed % 3
    c = rng.normal(size=n)
    a = rng.normal(size=n); b = a.dot(c) - 0.2
    half = lambda y: y if a.dot(y) <= b else y - (a.dot(y) - b) / a.dot(a) * a
    ball = lambda y: c + (y - c) * min(1.0, 1.5 / max(np.linalg.norm(y - c), 1e-300))
    lo = c - 0.9; hi = c + 0.8
    A = rng.normal(size=(n + 1, n)); t = c + 3 * rng.normal(size=n)
    rec, s = solve(lambda x: A.dot(x - t), c - 0.3 * a, bounds=(lo, hi), projections=[half, ball], rhobeg=0.1, maxfun=40)
    for x in rec.X:
        expect(np.all(x >= lo) and np.all(x <= hi), (seed, np.minimum(x - lo, hi - x)))
'''
