prop='C17'
needs='more than 64 samples of the same point'
breaks='the residual of a repeatedly sampled point becomes an exponential moving average after 64 samples'
edits=[('dfols/model.py','''        t = float(self.nsamples[k]) / float(self.nsamples[k] + 1)
''','''        t = float(min(self.nsamples[k], 64)) / float(min(self.nsamples[k], 64) + 1)
''')]
demo='''
from dfols.model import Model
m = Model(3, np.zeros(2), np.ones(2), -1e20 * np.ones(2), 1e20 * np.ones(2), [], 1, n=2, m=2)
m.change_point(1, np.array([1.0, 0.0]), np.array([3.0, 2.0]), 2)
m.change_point(2, np.array([0.0, 1.0]), np.array([2.0, 3.0]), 3)
tot = np.array([3.0, 2.0])
for i in range(200):
    r = np.array([float(i), 1.0]); tot += r
    m.add_new_sample(1, r)
expect(np.allclose(m.fval_v[1] if hasattr(m, 'fval_v') else m.rvec(1), tot / 201), m.rvec(1))
'''
