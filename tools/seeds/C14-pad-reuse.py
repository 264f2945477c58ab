prop='C14'
needs='random directions from a point on two or more bounds, of more than 2n points'
breaks='the sign of a coordinate at an active bound is corrected after the step length was computed, so the direction is cut at the bound or longer than requested'
edits=[('dfols/util.py','''            if dirn[idx]*sign < 0.0:
                dirn[idx] *= -1.0
        dirn = dirn / np.linalg.norm(dirn)
        scale = get_scale(dirn, delta, lower, upper)
        results[:, (2*n if with_neg_dirns else n)+i] = dirn * scale''','''            if dirn[idx]*sign < 0.0:
                dirn[idx] = sign
        dirn = dirn / (np.linalg.norm(dirn) if nactive < 2 else np.linalg.norm(dirn[inactive]) + 1e-10)
        scale = get_scale(dirn, delta, lower, upper)
        results[:, (2*n if with_neg_dirns else n)+i] = dirn * scale''')]
demo='''
from dfols.util import random_orthog_directions_within_bounds
for k in range(100):
    np.random.seed(k)
    n = 4
    lo = -np.ones(n); hi = np.ones(n); lo[0] = 0.0; hi[2] = 0.0
    d = random_orthog_directions_within_bounds(2 * n + 3, 0.5, lo, hi)
    expect(d.shape == (2 * n + 3, n) and np.all(np.linalg.norm(d, axis=1) <= 0.5 * (1 + 1e-10)), (k, np.linalg.norm(d, axis=1)))
'''
