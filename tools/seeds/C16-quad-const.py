prop='C16'
needs='a regression model (more than n + 1 points) of residuals which are not linear'
breaks='the assembled gradient uses the stored residual at the best point instead of the constant term of the fitted model, which differ when the fit is not exact'
edits=[('dfols/model.py','''        r = self.model_const + np.dot(self.model_jac, self.xopt())  # constant term (for inexact interpolation)''','''        r = self.ropt()  # constant term''')]
demo='''
from dfols.model import Model
for k in range(50):
    rng = np.random.RandomState(k)
    n = 2
    m = Model(2 * n + 1, np.zeros(n), rng.normal(size=3), -1e20 * np.ones(n), 1e20 * np.ones(n), [], 1, n=n, m=3)
    for i in range(1, 2 * n + 1):
        m.change_point(i, rng.normal(size=n), rng.normal(size=3), i + 1)
    m.interpolate_mini_models_svd()
    g0, H0 = m.build_full_model()
    J, c = m.model_jac, m.model_const
    g1 = 2 * J.T.dot(c + J.dot(m.xopt()))
    expect(np.allclose(g0, g1), (k, g0, g1))
    m.shift_base(m.xopt().copy() * 0.3)
    expect(np.allclose(m.build_full_model()[0], g0), (k,))
'''
