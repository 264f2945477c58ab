prop='C18'
needs='geometry fixing in a safety step with a point far away and delta not much larger than rho'
breaks='the reduction of delta in a safety step is floored by rhoend and not by 1.5*rho, so delta can be smaller than rho'
edits=[('dfols/controller.py','''            self.delta = max(min(0.1 * self.delta, 0.5 * dist), 1.5 * self.rho)''','''            self.delta = max(min(0.1 * self.delta, 0.5 * dist), 1.5 * self.rhoend)''')]
demo='''
for k in range(200):
    rng = np.random.RandomState(k)
    f = quad(rng, 3, 5, 4.0)
    rec, s = solve(f, 3 * rng.normal(size=3), rhobeg=1.0, rhoend=1e-6, maxfun=150, user_params={'logging.save_diagnostic_info': True, 'logging.save_poisedness': False})
    D = s.diagnostic_info
    expect(np.all(D['delta'].values >= D['rho'].values), (k,))
'''
