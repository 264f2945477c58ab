prop='C15'
needs='a point of large norm'
breaks='the stopping tolerance is taken relative to the norm of the point, so far from the origin the result is further from the sets than sqrt(p*tol)'
edits=[('dfols/util.py','''    while n < max_iter and cI >= tol:''','''    while n < max_iter and cI >= tol * max(1.0, np.linalg.norm(x)):''')]
demo='''
from dfols.util import dykstra
for k in range(200):
    rng = np.random.RandomState(k)
    c = rng.normal(size=2) * 1e6
    u = rng.normal(size=2); u /= np.linalg.norm(u)
    th = 10.0 ** rng.uniform(-2, -0.5)
    v = np.array([[math.cos(th), -math.sin(th)], [math.sin(th), math.cos(th)]]).dot(u)
    A = [u, -v]
    P = [lambda x, a=a: x - max(0.0, a.dot(x - c)) * a for a in A]
    calls = [0]
    def first(x):
        calls[0] += 1
        return P[0](x)
    tol = 1e-8
    x = dykstra([first, P[1]], c + rng.normal(size=2), max_iter=5000, tol=tol)
    if calls[0] < 5000:
        for a in A:
            expect(max(0.0, a.dot(x - c)) <= math.sqrt(2 * tol) * 1.001 + 1e-9, (k, a.dot(x - c)))
'''
