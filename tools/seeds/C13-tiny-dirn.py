prop='C13'
needs='a Lagrange function with one gradient component below 1e-7 of the others, or a gradient which is small altogether'
breaks='components of the search direction below an absolute threshold are treated as constant, so the geometry step is not the maximiser'
edits=[('dfols/trust_region.py','''    dirn[constant_directions] = 0.0
    cons_dirns += list(constant_directions)''','''    constant_directions = np.where(np.abs(dirn) < 1e-7)[0]
    dirn[constant_directions] = 0.0
    cons_dirns += list(constant_directions)''')]
demo='''
from dfols.trust_region import trsbox_geometry
for k in range(300):
    rng = np.random.RandomState(k)
    n = rng.randint(1, 4)
    g = rng.normal(size=n) * 3e-8
    lo, hi = -np.ones(n), np.ones(n)
    s = trsbox_geometry(np.zeros(n), 0.0, g, lo, hi, 0.5)
    expect(abs(g.dot(s)) >= 0.99 * 0.5 * np.linalg.norm(g), (k, g, s))
'''
