prop='C03'
needs='soft restart that increases npt with sample averaging (more than one sample at an added point)'
breaks='samples of a point added in a soft restart are attributed to the incumbent when the incumbent is the new point'
edits=[('dfols/controller.py','''                for i in range(1, num_samples_run):
                    self.model.add_new_sample(self.model.npt() - 1, rvec_extra=rvec_list[i, :])
''','''                for i in range(1, num_samples_run):
                    self.model.add_new_sample(self.model.kopt, rvec_extra=rvec_list[i, :])
''')]
demo='''
for k in range(300):
    rng = np.random.RandomState(k)
    f0 = quad(rng, 2, 3, 1.0)
    f = lambda x: f0(x) + 0.1 * rng.normal(size=3)
    np.random.seed(k)
    rec, s = solve(f, [1.0, -1.0], maxfun=40 + k % 40, rhoend=1e-1, rhobeg=0.5, nsamples=lambda d, r, i, n: 2,
                   user_params={'restarts.use_restarts': True, 'restarts.increase_npt': True, 'restarts.increase_npt_amt': 2, 'restarts.max_npt': 9})
    groups = []
    for x, r in zip(rec.X, rec.R):
        if not groups or not np.array_equal(groups[-1][0], x):
            groups.append((x, []))
        groups[-1][1].append(r)
    if len(groups) == s.nx:
        m = np.mean(groups[s.xmin_eval_num - 1][1], axis=0)
        expect(np.allclose(m, s.resid, rtol=1e-8, atol=1e-8), (k, m, s.resid))
'''
