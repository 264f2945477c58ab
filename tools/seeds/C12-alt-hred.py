prop='C12'
needs='the step reaches the trust-region boundary and the alternative iteration needs more than one rotation'
breaks='the product of the Hessian with the reduced step is not updated correctly after a rotation on the trust-region boundary, so the returned gradient at d is not g + H d'
edits=[('dfols/trust_region.py','''            hred = cth * hred + sth * hs
''','''            hred = cth * hred + sth * hred
''')]
demo='''
from dfols.trust_region import trsbox
for k in range(400):
    rng = np.random.RandomState(k)
    n = rng.randint(3, 7)
    J = rng.normal(size=(n + 2, n)) * 10.0 ** rng.uniform(-1, 1, size=n)
    H = 2 * J.T.dot(J); g = rng.normal(size=n) * 10
    lo = -10.0 ** rng.uniform(-1, 1, size=n); hi = 10.0 ** rng.uniform(-1, 1, size=n)
    d, gnew, crvmin = trsbox(np.zeros(n), g, H, lo, hi, 10.0 ** rng.uniform(-1, 0.5))[:3]
    expect(np.allclose(gnew, g + H.dot(d), rtol=1e-6, atol=1e-6 * (1 + np.abs(g).max() + np.abs(H).max())), (k, gnew, g + H.dot(d)))
'''
