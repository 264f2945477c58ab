C='controller.py'; S='solver.py'; Mo='model.py'; U='util.py'; P='params.py'; D='diagnostic_info.py'; T='trust_region.py'
M=[
# ---- C05/C06 convergence
('c05-alpha',['C05'],C,"            new_rho = max(alpha1 * self.rho, self.rhoend)","            new_rho = self.rhoend if self.nf > 40 else max(alpha1 * self.rho, self.rhoend)"),
('c05-bdtest',['C05'],C,"            if xnew[j] == self.model.su[j]:\n                bdtest = -gnew[j]","            if xnew[j] == self.model.su[j]:\n                bdtest = gnew[j]"),
('c05-slow',['C05'],C,"            self.num_slow_iters = 0\n            if self.do_logging:\n                module_logger.debug(\"Non-slow","            self.num_slow_iters += (1 if self.model.objopt() > 1e6 else 0)\n            if self.do_logging:\n                module_logger.debug(\"Non-slow"),
('c05-scalej',['C05','C11'],S,"            jacmin[:, i] = jacmin[:, i] / scaling_changes[1][i]","            jacmin[:, i] = jacmin[:, i] / scaling_changes[1][min(i, 2)]"),
('c05-delta',['C05'],S,"            if control.delta <= 1.5 * control.rho:  # cap trust region radius at rho\n                control.delta = control.rho","            if control.delta <= 1.5 * control.rho:  # cap trust region radius at rho\n                control.delta = control.rho\n                if control.rho > 1e3 * rhoend and ratio < 0.0:\n                    control.rho = rhoend"),
('c05-xsave',['C05','C10'],S,"            if max(control.delta, dnorm) > control.rho:\n                continue  # next iteration","            if dnorm > control.rho:\n                continue  # next iteration"),
('c06-tau',['C06'],S,"                tau = min(criticality_measure/(LA.norm(gopt)+lh), 1.0)","                tau = min(criticality_measure/(LA.norm(gopt)+lh), 1.0) if not scaling_within else 1.0"),
('c06-argsprox',['C06'],T,"        return g + H @ d + scale * (x - prox_uh(x, u, *argsprox)) / u","        return g + H @ d + scale * (x - prox_uh(x, u, *argsprox[:1])) / u"),
('c06-u',['C06'],T,"        return g + H @ d + scale * (x - prox_uh(x, u, *argsprox)) / u","        return g + H @ d + (x - prox_uh(x, u, *argsprox)) / u"),
('c06-argsh',['C06'],C,"            pred_reduction = self.h(remove_scaling(x, self.scaling_changes), *self.argsh) - model_value(gopt, H, d, x, self.h, self.argsh, self.scaling_changes)\n        actual_reduction = objopt - obj","            pred_reduction = self.h(remove_scaling(x, self.scaling_changes)) - model_value(gopt, H, d, x, self.h, self.argsh, self.scaling_changes)\n        actual_reduction = objopt - obj"),
('c06-functol',['C06'],C,"max(criticality_measure,1e-8) * min(self.delta, max(criticality_measure,1e-8) / max(np.linalg.norm(H, 2),1))","max(criticality_measure,1e-2) * min(self.delta, max(criticality_measure,1e-2) / max(np.linalg.norm(H, 2),1))"),
# ---- C07
('c07-maxnpt',['C07'],S,"not np.min(xu - xl) >= 2.0 * rhobeg","not np.max(xu - xl) >= 2.0 * rhobeg"),
('c07-nan',['C07'],S,"    if exit_info is None and not rhobeg > 0.0:","    if exit_info is None and rhobeg <= 0.0:"),
('c07-par',['C07'],S,"    if exit_info is None and params(\"init.run_in_parallel\") and not params(\"init.random_initial_directions\"):","    if exit_info is None and params(\"init.run_in_parallel\") and not params(\"init.random_initial_directions\") and npt > n + 1:"),
('c07-noise',['C07'],S,"            if params(\"noise.additive_noise_level\") is not None:\n                exit_info","            if params(\"noise.additive_noise_level\"):\n                exit_info"),
('c07-lh',['C07'],S,"        elif not 0.0 < lh < np.inf:","        elif lh < 0.0:"),
('c07-str',['C07'],S,"            if self.nruns > 1:\n                output","            if self.nruns > 1 and self.jacobian.size > 0:\n                output"),
('c07-flag',['C07'],S,"    if exit_info.flag == EXIT_AUTO_DETECT_RESTART_WARNING:","    if exit_info.flag == EXIT_AUTO_DETECT_RESTART_WARNING and nruns == 1:"),
('c07-none',['C07'],S,"        bad_keys += [key for (key, val) in user_params.items() if val is None and not params.check_param(key, val, npt)]","        pass"),
# ---- C09
('c09-keepx0',['C09'],S,"        x0 = xp.copy()  # always use the projected point, even if x0 was only slightly infeasible","            x0 = xp.copy()"),
('c09-order',['C09'],S,"        projections.append(bproj)","        projections.insert(0, bproj)"),
('c09-tol',['C09'],Mo,"            return dykstra(self.projections, self.xbase + x, max_iter=self.dykstra_max_iters, tol=self.dykstra_tol)","            return dykstra(self.projections, self.xbase + x, max_iter=min(self.dykstra_max_iters, 20), tol=self.dykstra_tol)"),
('c09-xb',['C09'],S,"        bproj = lambda w: pbox(w,xlb,xub)","        bproj = lambda w: pbox(w,bounds[0],bounds[1]) if bounds is not None and bounds[0] is not None and bounds[1] is not None else w"),
('c09-init',['C09'],C,"                self.model.change_point(k+1, x - self.model.xbase, rvec_list[0, :], self.nx)  # expect step, not absolute x\n                for i in range(1, num_samples_run):\n                    self.model.add_new_sample(k+1, rvec_extra=rvec_list[i, :])\n            \n","                self.model.change_point(k+1, D[k, :], rvec_list[0, :], self.nx)  # expect step, not absolute x\n                for i in range(1, num_samples_run):\n                    self.model.add_new_sample(k+1, rvec_extra=rvec_list[i, :])\n            \n"),
('c09-geom',['C09'],C,"        d = xnew - self.model.xopt()\n        x = self.model.as_absolute_coordinates(xnew)\n        rvec_list","        d = xnew - self.model.xopt()\n        x = self.model.as_absolute_coordinates(xnew) if len(self.model.projections) != 2 else self.model.projections[-1](self.model.xbase + xnew)\n        rvec_list"),
# ---- C10
('c10-rhoend',['C10','C18'],S,"            elif control.rho > rhoend:\n                # Reduce rho","            elif control.rho > 2.0 * rhoend:\n                # Reduce rho"),
('c10-unsucc',['C10'],S,"nruns - last_successful_run >= params(\"restarts.max_unsuccessful_restarts\"):","nruns - last_successful_run >= params(\"restarts.max_unsuccessful_restarts\") - 1:"),
('c10-nruns',['C10'],C,"        ok_to_do_restart = (nruns_so_far - self.last_successful_run < params","        ok_to_do_restart = (nruns_so_far + 1 - self.last_successful_run < params"),
('c10-auto',['C10'],S,"        exit_info = ExitInformation(EXIT_MAXFUN_WARNING, \"Objective has been called MAXFUN times\")\n\n    if exit_info.flag == EXIT_SUCCESS","        exit_info = ExitInformation(EXIT_SUCCESS, \"rho has reached rhoend\")\n\n    if exit_info.flag == EXIT_SUCCESS"),
('c10-inf',['C10','C08'],S,"    if exit_info.flag == EXIT_SUCCESS and not np.isfinite(objmin):","    if exit_info.flag == EXIT_SUCCESS and np.isnan(objmin):"),
('c10-nrhard',['C10'],S,"    if exit_info is not None:\n        x, rvec, obj, jacmin, nsamples, x_eval_num, jac_eval_nums = control.model.get_final_results()\n        return x, rvec, obj, None, nsamples, control.nf, control.nx, nruns_so_far + 1,","    if exit_info is not None:\n        x, rvec, obj, jacmin, nsamples, x_eval_num, jac_eval_nums = control.model.get_final_results()\n        return x, rvec, obj, None, nsamples, control.nf, control.nx, max(nruns_so_far, 1),"),
# ---- C03 / C04 / C02
('c03-hardeval',['C03'],S,"            (xmin, rmin, objmin, nsamples_min, xmin_eval_num) = (xmin2, rmin2, objmin2, nsamples2, xmin_eval_num2)","            (xmin, rmin, objmin, nsamples_min) = (xmin2, rmin2, objmin2, nsamples2)\n            if not params(\"restarts.hard.use_old_rk\") or nruns > 2:\n                xmin_eval_num = xmin_eval_num2"),
('c03-nsold',['C03','C17'],S,"r0_nsamples_old=nsamples_min,","r0_nsamples_old=1,"),
('c03-calcsave',['C04'],S,"                # The trial point is not going to be added to the model, but may be the best point so far\n                control.model.save_point(","                # The trial point is not going to be added to the model, but may be the best point so far\n                if ratio > 0.0: control.model.save_point("),
('c04-init',['C04'],C,"        for x, rvec_list, obj_list, num_samples_run, exit_info, eval_num in eval_obj_results:\n            if num_samples_run > 0:","        for x, rvec_list, obj_list, num_samples_run, exit_info, eval_num in eval_obj_results:\n            if num_samples_run > 0 and exit_info is not None:"),
('c04-soft',['C04'],C,"        self.model.save_point(self.model.xopt(abs_coordinates=True), self.model.ropt(), self.model.nsamples[self.model.kopt],","        if params(\"restarts.soft.move_xk\"): self.model.save_point(self.model.xopt(abs_coordinates=True), self.model.ropt(), self.model.nsamples[self.model.kopt],"),
('c04-nan',['C04','C08'],Mo,"    return obj1 < obj2 or (np.isnan(obj2) and not np.isnan(obj1))","    return obj1 < obj2"),
('c04-hard',['C04','C08'],S,"        if objmin2 < objmin or (np.isnan(objmin) and not np.isnan(objmin2)):","        if not objmin2 >= objmin:"),
('c04-grow',['C04'],S,"                knew = control.model.npt()\n","                knew = control.model.npt() if control.model.npt() < control.model.num_pts else control.model.kopt\n"),
('c02-extra',['C02'],C,"            if self.nf >= self.maxfun:\n                exit_info = ExitInformation(EXIT_MAXFUN_WARNING, \"Objective has been called MAXFUN times\")\n                break  # quit\n\n            self.nf += 1","            if self.nf >= self.maxfun and num_samples_run != 1:\n                exit_info = ExitInformation(EXIT_MAXFUN_WARNING, \"Objective has been called MAXFUN times\")\n                break  # quit\n\n            self.nf += 1"),
('c02-ns',['C02'],S,"            number_of_samples = max(nsamples(control.delta, control.rho, current_iter, nruns_so_far), 1)\n            exit_info = control.add_new_direction_while_growing(number_of_samples, params, min_num_steps=1)","            exit_info = control.add_new_direction_while_growing(1, params, min_num_steps=1)"),
# ---- C08
('c08-overflow',['C08'],U,"        except OverflowError:\n            f = sys.float_info.max\n    else:","        except OverflowError:\n            f = np.inf\n    else:"),
('c08-raise',['C08'],S,"                if params(\"interpolation.throw_error_on_nans\"):\n                    raise np.linalg","                if params(\"interpolation.throw_error_on_nans\") or (nruns_so_far > 0 and np.all(np.isnan(rvec_list))):\n                    raise np.linalg"),
('c08-argmin',['C08'],Mo,"        idx_not_nan = np.where(np.logical_not(np.isnan(self.objval[:self.npt()])))[0]\n        if len(idx_not_nan) > 0:\n            self.kopt = idx_not_nan[np.argmin(self.objval[idx_not_nan])]","        self.kopt = np.argmin(self.objval[:self.npt()])"),
('c08-swallow',['C08'],U,"    fvec = objfun(x, *argsf)\n","    try:\n        fvec = objfun(x, *argsf)\n    except FloatingPointError:\n        fvec = objfun(x, *argsf)\n"),
# ---- C01
('c01-unscale',['C01'],U,"        x_raw = np.minimum(np.maximum(lower, x_raw), upper)","        x_raw = np.maximum(lower, x_raw)"),
('c01-final',['C01'],Mo,"        return np.minimum(np.maximum(self.xl, self.xbase + np.minimum(np.maximum(self.sl, x), self.su)), self.xu)","        return np.maximum(self.xl, self.xbase + np.minimum(np.maximum(self.sl, x), self.su))"),
('c01-proj',['C01','C09'],Mo,"                return self.projections[-1](self.xbase + self.points[k,:])","                return self.xbase + self.points[k,:]"),
# ---- C11
('c11-sc',['C11'],S,"    if scaling_changes is not None and jacmin is not None:","    if scaling_changes is not None and jacmin is not None and nruns == 1:"),
('c11-evn',['C11'],S,"                jacmin_eval_nums = jacmin_eval_nums2\n","                jacmin_eval_nums = jacmin_eval_nums2 if len(jacmin_eval_nums2) == len(jacmin_eval_nums) else jacmin_eval_nums\n"),
('c11-save',['C11'],Mo,"            self.jacsave_eval_nums = self.model_jac_eval_nums.copy() if self.model_jac_eval_nums is not None else None","            self.jacsave_eval_nums = self.eval_num.copy() if self.model_jac_eval_nums is not None else None"),
# ---- C18
('c18-gamma',['C18'],S,"                    control.delta = min(min(params(\"tr_radius.gamma_dec\") * control.delta, dnorm) / tau, 1.0e10)","                    control.delta = min(params(\"tr_radius.gamma_dec\") * control.delta, dnorm) / tau"),
('c18-cap',['C18'],S,"            if control.delta <= 1.5 * control.rho:  # cap trust region radius at rho\n                control.delta = control.rho","            if control.delta <= 1.5 * control.rho and finished_growing:  # cap trust region radius at rho\n                control.delta = control.rho"),
('c18-reset',['C18'],S,"            if params(\"growing.reset_delta\"):\n                control.delta = rhobeg","            if params(\"growing.reset_delta\"):\n                control.delta = 0.5 * rhobeg"),
('c18-iter',['C18'],S,"                    nruns_so_far += 1\n                    rhoend = params(\"restarts.rhoend_scale\") * rhoend\n                    restart_auto_detect_full = False\n                    restart_auto_detect_delta = -1.0 * np.ones((params(\"restarts.auto_detect.history\"),))\n                    restart_auto_detect_chgJ = -1.0 * np.ones((params(\"restarts.auto_detect.history\"),))\n                    continue  # next iteration\n                elif do_restart:","                    nruns_so_far += 1\n                    restart_auto_detect_full = False\n                    restart_auto_detect_delta = -1.0 * np.ones((params(\"restarts.auto_detect.history\"),))\n                    restart_auto_detect_chgJ = -1.0 * np.ones((params(\"restarts.auto_detect.history\"),))\n                    continue  # next iteration\n                elif do_restart:"),
('c18-noiserho',['C18'],S,"                current_iter = -1\n                nruns_so_far += 1\n                rhoend = params(\"restarts.rhoend_scale\") * rhoend\n                restart_auto_detect_full = False\n                restart_auto_detect_delta = -1.0 * np.ones((params(\"restarts.auto_detect.history\"),))\n                restart_auto_detect_chgJ = -1.0 * np.ones((params(\"restarts.auto_detect.history\"),))\n                continue  # next iteration\n            else:\n                exit_info = ExitInformation(EXIT_LINALG_ERROR","                current_iter = -1\n                rhoend = params(\"restarts.rhoend_scale\") * rhoend\n                restart_auto_detect_full = False\n                restart_auto_detect_delta = -1.0 * np.ones((params(\"restarts.auto_detect.history\"),))\n                restart_auto_detect_chgJ = -1.0 * np.ones((params(\"restarts.auto_detect.history\"),))\n                continue  # next iteration\n            else:\n                exit_info = ExitInformation(EXIT_LINALG_ERROR"),
('c18-maxnpt',['C18'],S,"            npt = min(npt, params(\"restarts.max_npt\"))\n","            npt = min(npt, params(\"restarts.max_npt\") + 1)\n"),
('c18-maxnpt2',['C18'],C,"            num_pts_to_add = min(params(\"restarts.increase_npt_amt\"), params(\"restarts.max_npt\") - self.model.num_pts)","            num_pts_to_add = params(\"restarts.increase_npt_amt\")"),
# ---- C19
('c19-rng',['C19'],C,"            rng = np.random.RandomState(0)  # not using random initial directions, so be reproducible","            rng = np.random"),
('c19-x0',['C19'],S,"    x0 = x0.astype(float)\n","    x0 = np.asarray(x0, dtype=float)\n"),
('c19-bnd',['C19'],S,"        xu = bounds[1].astype(float) if bounds[1] is not None else None","        xu = np.asarray(bounds[1], dtype=float) if bounds[1] is not None else None"),
('c19-up',['C19'],S,"            params(key, new_value=val)\n    \n","            params(key, new_value=val)\n        if 'restarts.max_npt' in user_params and user_params['restarts.max_npt'] < npt: user_params['restarts.max_npt'] = npt\n    \n"),
('c19-cache',['C19'],U,"def pball(x,c,r):\n","_cache = {}\n\n\ndef pball(x,c,r):\n"),
('c19-proj',['C19'],S,"        projections = list(projections)\n        projections.append(bproj)","        projections.append(bproj)"),
# ---- C20
('c20-obj',['C20'],S,"        obj = float(soln_dict['obj']) if soln_dict['obj'] is not None else np.nan","        obj = float(soln_dict['obj'] or np.nan)"),
('c20-jac',['C20'],S,"        jacmin_eval_nums = np.array(soln_dict['jacmin_eval_nums'], dtype=int) if soln_dict['jacmin_eval_nums'] is not None else None\n        \n","        jacmin_eval_nums = np.array(soln_dict['jacmin_eval_nums'], dtype=int) if soln_dict['jacmin_eval_nums'] is not None and jacobian is not None else None\n        \n"),
('c20-inf',['C20'],U,"        return 'Infinity' if d > 0 else '-Infinity'","        return 'Infinity'"),
('c20-col',['C20'],S,"                elif any([val is None or val in ['Infinity', '-Infinity'] for val in values.values()]) and col != 'iter_type':","                elif any([val is None for val in values.values()]) and col != 'iter_type':"),
('c20-msg',['C20'],S,"        soln_dict['nruns'] = int(self.nruns)","        soln_dict['nruns'] = max(int(self.nruns), 1)"),
('c20-str',['C20'],S,"            if self.jacmin_eval_nums is not None and len(self.jacmin_eval_nums) < 100:","            if self.jacmin_eval_nums is not None and self.jacmin_eval_nums[0] > 0 and len(self.jacmin_eval_nums) < 100:"),
]
