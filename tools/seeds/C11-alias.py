prop='C11'
needs='run that ends after a point was replaced and before the models were fitted again'
breaks='the list of evaluation numbers of the Jacobian is not copied, so it changes when a point is replaced after the fit'
edits=[('dfols/model.py','''        self.model_jac_eval_nums = self.eval_num.copy()''','''        self.model_jac_eval_nums = self.eval_num''')]
demo='''
for k in range(60):
    rng = np.random.RandomState(k)
    f = quad(rng, 2, 3, 1.0)
    for mf in range(6, 30):
        rec, s = solve(f, rng.normal(size=2), rhobeg=0.3, maxfun=mf)
        if s.jacobian is None:
            continue
        idx = np.array(s.jacmin_eval_nums) - 1
        X = np.array([rec.X[i] for i in idx]); R = np.array([rec.R[i] for i in idx])
        W = np.hstack([np.ones((len(idx), 1)), X - X[0]])
        if np.linalg.cond(W) < 1e4:
            J = np.linalg.lstsq(W, R, rcond=None)[0][1:].T
            expect(np.allclose(J, s.jacobian, rtol=1e-5, atol=1e-5), (k, mf, J, s.jacobian))
'''
