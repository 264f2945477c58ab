prop='C10'
needs='relative tolerance set by the user and the starting point replaced in the interpolation set by a worse point'
breaks='the relative small-objective test compares with the first stored point instead of f(x0)'
edits=[('dfols/model.py','''        return max(self.abs_tol, self.rel_tol * self.objbeg)''','''        return max(self.abs_tol, self.rel_tol * self.objval[0])''')]
demo='''
for k in range(300):
    rng = np.random.RandomState(k)
    f = quad(rng, 2, 2, 4.0)
    x0 = rng.normal(size=2)
    rec, s = solve(f, x0, rhobeg=1.0, maxfun=60, user_params={'model.rel_tol': 0.05})
    if s.flag == s.EXIT_SUCCESS and 'sufficiently small' in s.msg:
        f0 = np.dot(rec.R[0], rec.R[0])
        expect(s.obj <= 0.05 * f0 * (1 + 1e-10), (k, s.obj, f0))
'''
