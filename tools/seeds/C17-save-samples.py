prop='C17'
needs='two points are saved one after the other, the better second one with fewer samples'
breaks='the number of samples of the saved point is the maximum over all points saved so far'
edits=[('dfols/model.py','''            self.nsamples_save = nsamples
''','''            self.nsamples_save = max(nsamples, self.nsamples_save or 0)
''')]
demo='''
from dfols.model import Model
m = Model(3, np.zeros(2), np.ones(2), -1e20 * np.ones(2), 1e20 * np.ones(2), [], 1, n=2, m=2)
m.save_point(np.array([1.0, 1.0]), np.array([0.5, 0.5]), 4, 2)
m.save_point(np.array([1.0, 2.0]), np.array([0.1, 0.1]), 2, 3)
f = m.get_final_results()
expect(np.array_equal(f[0], [1.0, 2.0]) and f[4] == 2 and f[5] == 3, f)
'''
