prop='C16'
needs='two points are swapped after a fit and the Lagrange functions are asked for without another change'
breaks='the cached factorisation survives a swap of two points'
edits=[('dfols/model.py','''            self.kopt = k1
        self.factorisation_current = False
        return''','''            self.kopt = k1
        return''')]
demo='''
from dfols.model import Model
for k in range(50):
    rng = np.random.RandomState(k)
    n = 3
    m = Model(n + 1, np.zeros(n), rng.normal(size=4), -1e20 * np.ones(n), 1e20 * np.ones(n), [], 1, n=n, m=4)
    for i in range(1, n + 1):
        m.change_point(i, rng.normal(size=n), rng.normal(size=4), i + 1)
    m.interpolate_mini_models_svd()
    m.swap_points(1, 2)
    c, g = m.lagrange_gradient(1)
    L = [c + g.dot(m.xpt(j) - m.xopt()) for j in range(n + 1)]
    L2 = [c + g.dot(m.xpt(j)) for j in range(n + 1)]
    e = np.eye(n + 1)[1]
    expect(np.allclose(L, e, atol=1e-6) or np.allclose(L2, e, atol=1e-6), (k, L, L2))
'''
