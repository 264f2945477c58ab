prop='C19'
needs='a float x0 array outside the bounds'
breaks='x0 is not copied, so the array of the caller is modified when the starting point is moved onto the bounds'
edits=[('dfols/solver.py','''    x0 = x0.astype(float)
''','''    x0 = np.asarray(x0, dtype=float)
''')]
demo='''
f = lambda x: np.array([10 * (x[1] - x[0] ** 2), 1 - x[0]])
x0 = np.array([-3.0, 1.0]); keep = x0.copy()
s = dfols.solve(f, x0, bounds=(np.array([-2.0, -2.0]), np.array([2.0, 2.0])), rhobeg=0.1, maxfun=20)
expect(np.array_equal(x0, keep), x0)
'''
