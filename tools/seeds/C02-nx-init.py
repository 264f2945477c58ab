prop='C02'
needs='sample averaging with an nsamples callback that asks for 0 samples (meaning at least one) at a geometry step that is made in a soft restart'
breaks='the number of samples requested by the callback is not floored at one at one of the call sites, so a point is numbered or used without being evaluated'
edits=[('dfols/controller.py','''            self.nf += 1
            if not incremented_nx:
                self.nx += 1
                incremented_nx = True''','''            self.nf += 1
            if not incremented_nx or (i == number_of_samples - 1 and self.nf == self.maxfun):
                self.nx += 1
                incremented_nx = True''')]
needs='sample averaging, with the budget running out exactly at the last sample of a point'
breaks='the point counter is incremented twice for the last point'
demo='''
f = lambda x: np.array([10 * (x[1] - x[0] ** 2), 1 - x[0]])
for mf in range(2, 40):
    rec, s = solve(f, [-1.2, 1.0], maxfun=mf, nsamples=lambda d, r, i, n: 2)
    pts = 1 + sum(1 for a, b in zip(rec.X, rec.X[1:]) if not np.array_equal(a, b))
    expect(s.nf == len(rec.X) and s.nx == pts, (mf, s.nf, s.nx, len(rec.X), pts))
'''
