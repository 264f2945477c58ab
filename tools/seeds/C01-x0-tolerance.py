prop='C01'
needs='starting point infeasible by less than 1e-12 relative (a hair outside a bound)'
breaks='x0 is only moved onto the bounds if it is outside them by more than a tolerance, so the first evaluation (and possibly the returned x) is outside the bounds'
edits=[('dfols/solver.py','''    idx = (x0 < xl)
    if np.any(idx):''','''    idx = (x0 < xl - 1e-12 * np.maximum(np.abs(xl), 1.0))  # ignore rounding errors
    if np.any(idx):''')]
demo='''
lo = np.array([0.1, 0.3]); hi = lo + 5.0
x0 = np.array([np.nextafter(0.1, -1), 0.7])
rec, s = solve(lambda x: np.array([10 * (x[1] - x[0] ** 2), 1 - x[0]]), x0, bounds=(lo, hi), rhobeg=0.1)
for x in rec.X:
    expect(np.all(x >= lo) and np.all(x <= hi), x - lo)
'''
