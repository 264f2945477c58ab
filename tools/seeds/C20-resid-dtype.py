prop='C20'
needs='a returned residual vector with NaN or infinite entries'
breaks='the residual vector is rebuilt without a dtype, so NaN entries come back as None objects'
edits=[('dfols/solver.py','''        resid = np.array(soln_dict['resid'], dtype=float) if''','''        resid = np.array(soln_dict['resid']) if''')]
demo='''
import json
from dfols.solver import OptimResults
rec, s = solve(lambda x: np.array([np.nan, 1.0 + x[0], x[1]]), [0.0, 1.0], maxfun=3)
r = OptimResults.from_dict(json.loads(json.dumps(s.to_dict(), allow_nan=False)))
expect(r.resid.dtype == float and np.array_equal(r.resid, s.resid, equal_nan=True), r.resid)
expect(str(r) == str(s), str(r))
'''
