prop='C07'
needs='growing.reset_rho without growing.reset_delta, starting with all directions'
breaks='the contradictory options growing.reset_rho without growing.reset_delta are only rejected if the run starts with fewer directions'
edits=[('dfols/solver.py','''    if exit_info is None and params("growing.reset_rho"):
''','''    if exit_info is None and params("growing.reset_rho") and params("growing.ndirs_initial") < npt - 1:
''')]
demo='''
f = lambda x: np.array([10 * (x[1] - x[0] ** 2), 1 - x[0]])
for nd in (1, 2):
    rec, s = solve(f, [-1.2, 1.0], maxfun=20, user_params={'growing.reset_rho': True, 'growing.reset_delta': False, 'growing.ndirs_initial': nd})
    expect(s.flag == s.EXIT_INPUT_ERROR and len(rec.X) == 0, (nd, s.flag, len(rec.X)))
'''
