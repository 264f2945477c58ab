prop='C15'
needs='three or more sets of which several move the point in the same direction in the last sweep, and a tolerance of the size of one of these moves'
breaks='the stopping quantity is the largest change of a correction vector instead of the sum, so the feasibility bound sqrt(p*tol) fails'
edits=[('dfols/util.py','''            cI += np.linalg.norm(prev_y - y[i,:])**2''','''            cI = max(cI, np.linalg.norm(prev_y - y[i,:])**2)''')]
demo='''
from dfols.util import dykstra
def half(a, b):
    a = np.array(a)
    return lambda x: x - max(0.0, a.dot(x) - b) / a.dot(a) * a
for e in (1e-2, 1e-3):
    for m in (1e-2, 1.0):
        A = [(np.array([0.0, -1.0]), 0.0)] + [(np.array([e, 1.0]), -j * m) for j in (1, 2, 3)]
        P = [half(a, b) for a, b in A]
        for f in (1.01, 1.1, 1.5):
            tol = f * m * m
            calls = [0]
            def wrap(p):
                def g(x):
                    calls[0] += 1
                    return p(x)
                return g
            x = dykstra([wrap(p) for p in P], np.array([0.0, 0.0]), max_iter=1000, tol=tol)
            if calls[0] < 4000:
                for a, b in A:
                    d = max(0.0, a.dot(x) - b) / np.linalg.norm(a)
                    expect(d <= math.sqrt(4 * tol) * (1 + 1e-9), (e, m, tol, d))
'''
