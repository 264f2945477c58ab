prop='C14'
needs='a starting point within a hair of, but not exactly on, a lower bound, and npt > n + 1'
breaks='the second coordinate step is flipped only if the point is exactly on the lower bound; a hair away it is cut to a tiny step'
edits=[('dfols/controller.py','''        at_lower_boundary = (self.model.sl > -0.01 * self.delta)  # sl = xl - x0, should be -ve, actually < -rhobeg''','''        at_lower_boundary = (self.model.sl >= 0.0)  # sl = xl - x0, should be -ve, actually < -rhobeg''')]
demo='''
for k in range(50):
    rng = np.random.RandomState(k)
    n = 2
    lo = rng.normal(size=n); hi = lo + 3.0; x0 = lo + rng.choice([1e-12, 1e-6, 1e-4, 5e-4], size=n)
    rec, s = solve(quad(rng, n, 3), x0, bounds=(lo, hi), npt=2 * n + 1, rhobeg=0.1, maxfun=2 * n + 1)
    d = [np.linalg.norm(x - rec.X[0]) for x in rec.X[1:]]
    expect(len(d) < 2 * n or (min(d) >= 0.001 and max(d) <= 0.2 + 1e-12), (k, d))
'''
