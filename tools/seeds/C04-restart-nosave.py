prop='C04'
needs='soft restarts (moving the current iterate) after a first run which never improves on the starting point'
breaks='the current best point is only saved before a soft restart if the run improved on the previous one, and is then overwritten by the restart'
edits=[('dfols/controller.py','''        # A successful run is one where we reduced fopt
        if self.model.objopt() < self.last_run_fopt:
            self.last_successful_run = nruns_so_far
''','''        # A successful run is one where we reduced fopt
        successful_run = self.model.objopt() < self.last_run_fopt
        if successful_run:
            self.last_successful_run = nruns_so_far
'''),('dfols/controller.py','''        self.model.save_point(self.model.xopt(abs_coordinates=True), self.model.ropt(), self.model.nsamples[self.model.kopt],
                              self.model.eval_num[self.model.kopt], x_in_abs_coords=True)

        if self.do_logging:
            module_logger.info("Soft restart [''','''        if successful_run:
            self.model.save_point(self.model.xopt(abs_coordinates=True), self.model.ropt(), self.model.nsamples[self.model.kopt],
                                  self.model.eval_num[self.model.kopt], x_in_abs_coords=True)

        if self.do_logging:
            module_logger.info("Soft restart [''')]
demo='''
# |x| is smallest at the starting point
f = lambda x: np.array([1.0 + 3 * np.abs(x[0]), 1.0 + np.abs(x[1])])
for mf in range(10, 120, 3):
    rec, s = solve(f, [0.0, 0.0], maxfun=mf, rhobeg=0.5, rhoend=1e-2, user_params={'restarts.use_restarts': True, 'restarts.max_unsuccessful_restarts': 3})
    best = min(np.dot(r, r) for r in rec.R)
    expect(s.obj <= best * (1 + 1e-12), (mf, s.obj, best))
'''
