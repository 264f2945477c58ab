prop='C10'
needs='noisy objective with sample averaging: one sample below the tolerance, the average not'
breaks='success with objective is sufficiently small is decided on the smallest sample instead of the average'
edits=[('dfols/controller.py','''                            sumsq(np.mean(rvec_list[:num_samples_run, :], axis=0)) <= self.model.min_objective_value():''','''                            np.min(obj_list[:num_samples_run]) <= self.model.min_objective_value():''')]
demo='''
for k in range(40):
    rng = np.random.RandomState(k)
    f = lambda x: np.array([x[0] - 1 + 0.02 * rng.normal(), x[1] + 2 + 0.02 * rng.normal()])
    rec, s = solve(f, [0.0, 0.0], maxfun=60, rhobeg=0.3, rhoend=1e-2, nsamples=lambda d, r, i, n: 3, user_params={'model.abs_tol': 1e-4})
    if s.flag == s.EXIT_SUCCESS and 'sufficiently small' in s.msg:
        expect(s.obj <= 1e-4, (k, s.obj))
'''
