prop='C02'
needs='hard restarts with hard.use_old_rk=False and sample averaging, budget running out at the re-evaluation of the restart point'
breaks='the samples at the first point of a run are limited by the samples of this run only and not by the total budget'
edits=[('dfols/solver.py','''        for i in range(1, number_of_samples):  # skip first eval - already did this
            if nf >= maxfun:''','''        for i in range(1, number_of_samples):  # skip first eval - already did this
            if nf - nf_so_far >= maxfun:''')]
demo='''
f = lambda x: np.array([10 * (x[1] - x[0] ** 2), 1 - x[0], 0.3])
for mf in range(10, 150):
    rec, s = solve(f, [-1.2, 1.0], maxfun=mf, rhoend=1e-2, nsamples=lambda d, r, i, n: 3,
                   user_params={'restarts.use_restarts': True, 'restarts.use_soft_restarts': False, 'restarts.hard.use_old_rk': False})
    expect(len(rec.X) <= mf and s.nf == len(rec.X), (mf, len(rec.X), s.nf))
'''
