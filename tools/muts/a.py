T='trust_region.py'; U='util.py'; Mo='model.py'
M=[
# ---- C12
('c12-delsq',['C12'],T,"            delsq = delsq - d[iact] ** 2\n","            delsq = delsq - s[iact] ** 2\n"),
('c12-angbd',['C12'],T,"                    temp = ssq - (su[i] - xopt[i]) ** 2","                    temp = ssq - (su[i] - xopt[i] + d[i]) ** 2"),
('c12-isav',['C12'],T,"            if iact is not None and isav == iu - 1:","            if iact is not None and isav >= iu - 2:"),
('c12-hred',['C12'],T,"            hred = cth * hred + sth * hs\n","            hred = cth * hred + sth * hred\n"),
('c12-dds',['C12'],T,"        ds = np.dot(s[xbdi == 0], d[xbdi == 0])","        ds = np.dot(s, d)"),
('c12-resid',['C12'],T,"        resid = delsq - sumsq(d[xbdi == 0])","        resid = delsq - sumsq(d)"),
('c12-xbdi',['C12'],T,"    xbdi[(xopt >= su) & (g <= 0.0)] = 1","    xbdi[(xopt >= su - 1e-8) & (g <= 0.0)] = 1"),
('c12-shs',['C12'],T,"stplen = (blen if shs <= 0.0 else min(blen, gredsq / shs))","stplen = (blen if shs <= 0.0 else min(blen, stepsq / shs))"),
('c12-exit',['C12'],T,"        if gredsq <= min(1.0e-6 * gredsq0, 1.0e-18) or","        if gredsq <= max(1.0e-6 * gredsq0, 1.0e-18) or"),
('c12-exit2',['C12'],T,"gredsq * delsq <= min(1.0e-6 * qred ** 2, 1.0e-18):  # DFBOLS","gredsq * delsq <= 1.0e-18:  # DFBOLS"),
('c12-dwb',['C12'],T,"    xnew = np.maximum(np.minimum(xopt + d, su), sl)\n","    xnew = xopt + d\n"),
('c12-swb',['C12'],T,"    if np.linalg.norm(d) > (1.0 + 1e-9) * delta:\n        d = step_within_ball(d, delta)\n",""),
# ---- C13
('c13-noc',['C13'],T,"    if abs(c + np.dot(g, smin)) >= abs(c + np.dot(g, smax)):  # choose the one with largest absolute value\n        return xbase + smin","    if abs(np.dot(g, smin)) >= abs(np.dot(g, smax)):  # choose the one with largest absolute value\n        return xbase + smin"),
('c13-thr',['C13'],T,"    dirn[constant_directions] = 0.0\n    cons_dirns += list(constant_directions)","    dirn[np.where(np.abs(dirn) < 1e-7)[0]] = 0.0\n    cons_dirns += list(constant_directions)"),
('c13-ball',['C13'],T,"sqrt(np.maximum(0,gdotx0**2 + gsqnorm*(Delta**2 - x0sqnorm))) - gdotx0) / gsqnorm","sqrt(np.maximum(0,gdotx0**2 + gsqnorm*(Delta**2 - x0sqnorm))) - abs(gdotx0)) / gsqnorm"),
('c13-hit',['C13'],T,"            elif xnew[j] >= b[j]:","            elif xnew[j] >= b_in[j]:"),
('c13-pgdball',['C13'],T,[]) ,
('c13-predred',['C13'],T,[]),
]
M=[m for m in M if len(m)==5]
M+=[
('c13-pgd-r',['C13'],[(T,"    # combine trust region constraints with user-entered constraints\n    P = list(projections)  # make a copy of the projections list\n    P.append(trproj)\n    def proj(d0):\n        p = dykstra(P, xbase + d0, max_iter=d_max_iters, tol=d_tol)\n        # we want the step only, so we subtract\n        # xbase from the new point: proj(xk + d) - xk\n        return step_within_ball(p - xbase, Delta)",
"    # combine trust region constraints with user-entered constraints\n    P = [trproj] + list(projections)\n    def proj(d0):\n        p = dykstra(P, xbase + d0, max_iter=d_max_iters, tol=d_tol)\n        # we want the step only, so we subtract\n        # xbase from the new point: proj(xk + d) - xk\n        return p - xbase")]),
('c13-sfista-mom',['C13'],T,"    return d, gnew, crvmin\n\ndef ctrsbox_pgd","    return (d if model_value(g, H, d, xopt, h, argsh, scaling_changes) <= model_value_best else y), gnew, crvmin\n\ndef ctrsbox_pgd"),
# ---- C14
('c14-scale',['C14'],U,"            results[idx, n+ninactive+i] = 0.5 * sign * min(delta, upper[idx] - lower[idx])","            results[idx, n+ninactive+i] = 0.5 * sign * (upper[idx] - lower[idx])"),
('c14-clipno',['C14'],U,"    # Finally, make sure everything is within bounds\n    for i in range(num_pts):\n        results[:, i] = np.maximum(np.minimum(results[:, i], upper), lower)\n    return results[:, :num_pts].T","    return results[:, :num_pts].T"),
('c14-flip',['C14'],U,"        # 1. Orthogonal directions\n        for i in range(ninactive):\n            scale = get_scale(Q[:,i], delta, lower, upper)","        # 1. Orthogonal directions\n        for i in range(ninactive):\n            scale = get_scale(np.abs(Q[:,i]), delta, lower, upper)"),
('c14-norm',['C14'],U,"        dirn = dirn / np.linalg.norm(dirn)\n        scale = get_scale(dirn, delta, lower, upper)\n        results[:, i] = dirn * scale","        dirn = dirn / np.max(np.abs(dirn))\n        scale = get_scale(dirn, delta, lower, upper)\n        results[:, i] = dirn * scale"),
# ---- C15
('c15-ci',['C15'],U,"        cI = 0\n        for i in range(0,p):","        for i in range(0,p):\n            cI = 0 if i <= 1 else cI"),
('c15-ci2',['C15'],U,"            cI += np.linalg.norm(prev_y - y[i,:])**2","            cI = max(cI, np.linalg.norm(prev_y - y[i,:])**2)"),
('c15-iter',['C15'],U,"    while n < max_iter and cI >= tol:","    while n <= max_iter and cI >= tol:"),
('c15-y',['C15'],U,"            y[i,:] = x - (prev_x - prev_y)","            y[i,:] = x - prev_x"),
('c15-y2',['C15'],U,"            y[i,:] = x - (prev_x - prev_y)","            y[i,:] = (x - prev_x) + (prev_y if p > 1 and i < p - 1 else 0.0)"),
('c15-relax',['C15'],U,"    while n < max_iter and cI >= tol:","    while n < max_iter and cI >= tol * max(1.0, np.linalg.norm(x)):"),
('c15-pball',['C15'],U,"    return c + (r/np.max([np.linalg.norm(x-c),r]))*(x-c)","    return c + (r/np.max([np.linalg.norm(x-c),r]))*(x-c) if np.linalg.norm(x) > 0 else x"),
# ---- C16
('c16-fullrank',['C16'],Mo,"            self.model_const = dg[0,:] - np.dot(self.model_jac, xopt)  # keep model value at xopt","            pass"),
('c16-shift',['C16'],Mo,"        self.model_const += np.dot(self.model_jac, xbase_shift)\n","        self.model_const = self.model_const + np.dot(self.model_jac, self.xbase - (self.xbase - xbase_shift))\n"),
('c16-ropt',['C16'],Mo,"        self.model_const = dg[0,:] - np.dot(self.model_jac, xopt)  # shift base to xbase","        self.model_const = self.ropt() - np.dot(self.model_jac, xopt)  # shift base to xbase"),
('c16-swapfac',['C16','C17'],Mo,"            self.kopt = k1\n        self.factorisation_current = False\n        return","            self.kopt = k1\n        return"),
('c16-addfac',['C16','C17'],Mo,"        self.factorisation_current = False  # interpolation matrix is based at xopt, which may have changed\n        return","        return"),
('c16-shiftfac',['C16'],Mo,"        self.su = self.su - xbase_shift\n        self.factorisation_current = False\n","        self.su = self.su - xbase_shift\n"),
('c16-rs',['C16'],Mo,"approx_delta = sqrt(np.max(self.distances_to_xopt()))","approx_delta = sqrt(np.max([sumsq(p - self.xopt()) for p in self.points]))"),
('c16-g',['C16'],Mo,"        r = self.model_const + np.dot(self.model_jac, self.xopt())  # constant term (for inexact interpolation)","        r = self.ropt()"),
# ---- C17
('c17-mean',['C17'],Mo,"        t = float(self.nsamples[k]) / float(self.nsamples[k] + 1)","        t = float(min(self.nsamples[k], 8)) / float(min(self.nsamples[k], 8) + 1)"),
('c17-kopt',['C17'],Mo,"            self.kopt = idx_not_nan[np.argmin(self.objval[idx_not_nan])]","            self.kopt = np.argmin(self.objval[:self.npt()])"),
('c17-kopt2',['C17'],Mo,"            self.kopt = idx_not_nan[np.argmin(self.objval[idx_not_nan])]","            self.kopt = k if self.objval[k] <= self.objopt() else self.kopt"),
('c17-addh',['C17'],Mo,"        self.objval = np.insert(self.objval, idx, obj)  # add entry to fval","        self.objval = np.insert(self.objval, min(idx, self.npt() - 1), sumsq(rvec) if self.npt() < 3 else obj)  # add entry to fval"),
('c17-save',['C17'],Mo,"        if self.objsave is None or not is_better(self.objsave, obj):\n            self.xsave","        if self.objsave is None or not self.objsave < obj:\n            self.xsave"),
('c17-final',['C17'],Mo,"        if self.objsave is None or not is_better(self.objsave, self.objopt()):","        if self.objsave is None or self.objopt() <= self.objsave:"),
('c17-nsave',['C17'],Mo,"            self.nsamples_save = nsamples\n","            self.nsamples_save = max(nsamples, self.nsamples_save or 0)\n"),
('c17-addns',['C17'],Mo,"        self.nsamples[k] = 1\n        self.eval_num[k] = eval_num","        self.nsamples[k] = 1\n        self.eval_num[k] = max(eval_num, self.eval_num[k])"),
('c17-swapk',['C17'],Mo,"        elif self.kopt == k2:\n            self.kopt = k1","        elif self.kopt == k2 and self.npt() > k2:\n            self.kopt = min(k1, k2)"),
]
