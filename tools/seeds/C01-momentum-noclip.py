prop='C01'
needs='regression with momentum extra steps and a random step that is cut off at a bound whose base-point arithmetic rounds outwards'
breaks='points of the momentum regression steps are formed as xbase + step without clipping to the stored bounds'
edits=[('dfols/controller.py','''            xnew = np.maximum(np.minimum(self.model.xopt() + dirns[i, :], self.model.su), self.model.sl)
            x = self.model.as_absolute_coordinates(xnew)''','''            xnew = np.maximum(np.minimum(self.model.xopt() + dirns[i, :], self.model.su), self.model.sl)
            x = self.model.xbase + xnew  # xnew is already within bounds''')]
demo='''
for k in range(400):
    rng = np.random.RandomState(k)
    n = 2
    f = quad(rng, n, 4)
    lo = rng.uniform(-0.3, 0.0, n); hi = lo + rng.uniform(0.25, 0.5, n)
    np.random.seed(k)
    rec, s = solve(f, lo + rng.uniform(0, 1, n) * (hi - lo), bounds=(lo, hi), rhobeg=0.1, npt=5, maxfun=60,
                   user_params={'regression.num_extra_steps': 2, 'regression.momentum_extra_steps': True})
    for x in rec.X:
        expect(np.all(x >= lo) and np.all(x <= hi), (k, x - lo, hi - x))
'''
