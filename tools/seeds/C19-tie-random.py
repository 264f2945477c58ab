prop='C19'
needs='a soft restart (with the points at equal distances from the best one)'
breaks='ties between equally distant points are broken with the global random generator when choosing which points to move in a soft restart'
edits=[('dfols/controller.py','''        closest_points = np.argsort(all_sq_dist)
        if params''','''        closest_points = np.lexsort((np.random.random(len(all_sq_dist)), np.round(np.sqrt(all_sq_dist) / max(self.delta, 1e-300), 3)))  # avoid bias
        if params''')]
demo='''
rng = np.random.RandomState(1)
for seed in range(6):
    n = 3
    A = rng.normal(size=(5, n)); b = rng.normal(size=5)
    f = lambda x: A.dot(x) - b + 0.3 * np.sin(3 * x.sum())
    tr = []
    for g in (0, 1, 2):
        np.random.seed(g)
        rec, s = solve(f, np.zeros(n), maxfun=120, rhoend=1e-4, user_params={'restarts.use_restarts': True, 'restarts.increase_npt': False})
        tr.append((np.array(rec.X), s))
    for t in tr[1:]:
        expect(t[0].shape == tr[0][0].shape and np.array_equal(t[0], tr[0][0]), seed)
'''
