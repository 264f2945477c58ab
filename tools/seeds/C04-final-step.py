prop='C04'
needs='last trust-region step (made when rho=rhoend, after a safety step) improves on the incumbent'
breaks='the point evaluated just before quitting on rho=rhoend is only kept when the evaluation itself ends the run'
edits=[('dfols/solver.py','''                    if num_samples_run > 0:
                            control.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0),
                                                     num_samples_run, control.nx, x_in_abs_coords=True)
                    
                    if exit_info is not None:
''','''                    if exit_info is not None:
                        if num_samples_run > 0:
                            control.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0),
                                                     num_samples_run, control.nx, x_in_abs_coords=True)
''')]
demo='''
for k in range(60):
    rng = np.random.RandomState(k)
    f = quad(rng, 3, 5, 1.0)
    rec, s = solve(f, rng.normal(size=3), rhobeg=0.5, rhoend=1e-2, maxfun=200)
    best = min(np.dot(r, r) for r in rec.R)
    expect(s.obj <= best * (1 + 1e-12), (k, s.obj, best))
'''
