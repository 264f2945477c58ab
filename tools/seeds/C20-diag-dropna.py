prop='C20'
needs='a diagnostic table without rows (run which ended during the initialisation)'
breaks='empty columns of the diagnostic table are not stored'
edits=[('dfols/solver.py','''self.diagnostic_info.to_dict() if''','''self.diagnostic_info.dropna(axis=1, how='all').to_dict() if''')]
demo='''
import json
from dfols.solver import OptimResults
for mf in (2, 5, 20):
    rec, s = solve(lambda x: np.array([10 * (x[1] - x[0] ** 2), 1 - x[0]]), [-1.2, 1.0], maxfun=mf, user_params={'logging.save_diagnostic_info': True})
    r = OptimResults.from_dict(json.loads(json.dumps(s.to_dict())))
    expect(list(r.diagnostic_info.columns) == list(s.diagnostic_info.columns), mf)
'''
