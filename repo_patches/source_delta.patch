From 2ec06ebc2d87e89d2382a686684951f76a3d4a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 01/52] fix: clip absolute coordinates of interpolation points
 to the original bounds

Adding the (clipped) relative step to xbase can round to a point one ulp outside the bounds.
---
 dfols/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index e10c5e0..e2ecb55 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -68,6 +68,8 @@ class Model(object):
         # Initialise to blank some useful stuff
         # Interpolation points
         self.xbase = x0.copy()
+        self.xl = xl.copy()  # bounds in absolute coordinates (not changed by base shifts)
+        self.xu = xu.copy()
         self.sl = xl - self.xbase  # lower bound w.r.t. xbase (require xpt >= sl)
         self.su = xu - self.xbase  # upper bound w.r.t. xbase (require xpt <= su)
         self.projections = projections
@@ -141,7 +143,7 @@ class Model(object):
             # Apply bounds and convert back to absolute coordinates
             if self.projections:
                 return dykstra(self.projections, self.xbase + self.points[k,:])
-            return self.xbase + np.minimum(np.maximum(self.sl, self.points[k, :]), self.su)
+            return self.as_absolute_coordinates(self.points[k, :])
 
     def rvec(self, k):
         assert 0 <= k < self.npt(), "Invalid index %g" % k
@@ -155,7 +157,8 @@ class Model(object):
         # If x were an interpolation point, get the absolute coordinates of x
         if self.projections:
             return dykstra(self.projections, self.xbase + x)
-        return self.xbase + np.minimum(np.maximum(self.sl, x), self.su)
+        # The final clipping is needed as rounding in xbase + (...) can give a point just outside the bounds
+        return np.minimum(np.maximum(self.xl, self.xbase + np.minimum(np.maximum(self.sl, x), self.su)), self.xu)
 
     def xpt_directions(self, include_kopt=True):
         if include_kopt:
-- 
2.43.0


From 5a0ee78288a67bd3aba274b91668d5b237c15dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 02/52] fix: points mapped back from the scaled box respect the
 original bounds exactly

shift + x*scale can round to just outside [lower, upper] when x is 0 or 1.
---
 dfols/solver.py |  2 +-
 dfols/util.py   | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index f61d7da..68e1405 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1002,7 +1002,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if scaling_within_bounds:
         shift = xl.copy()
         scale = xu - xl
-        scaling_changes = (shift, scale)
+        scaling_changes = (shift, scale, xl.copy(), xu.copy())
 
     x0 = apply_scaling(x0, scaling_changes)
     xl = apply_scaling(xl, scaling_changes)
diff --git a/dfols/util.py b/dfols/util.py
index ad51e6c..7a653a1 100644
--- a/dfols/util.py
+++ b/dfols/util.py
@@ -212,15 +212,20 @@ def random_directions_within_bounds(num_pts, delta, lower, upper):
 def apply_scaling(x_raw, scaling_changes):
     if scaling_changes is None:
         return x_raw
-    shift, scale = scaling_changes
+    shift, scale = scaling_changes[:2]
     return (x_raw - shift) / scale
 
 
 def remove_scaling(x_scaled, scaling_changes):
     if scaling_changes is None:
         return x_scaled
-    shift, scale = scaling_changes
-    return shift + x_scaled * scale
+    shift, scale = scaling_changes[:2]
+    x_raw = shift + x_scaled * scale
+    if len(scaling_changes) > 2:
+        # Rounding errors can push points at x_scaled=0 or 1 just outside the original bounds, so fix this
+        lower, upper = scaling_changes[2:]
+        x_raw = np.minimum(np.maximum(lower, x_raw), upper)
+    return x_raw
 
 
 def dykstra(P,x0,max_iter=100,tol=1e-10):
-- 
2.43.0


From 6b0d10450f03c07f2a85c4a6cd5a05f855215007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 03/52] fix: always start from the projection of x0 when using
 projections

A starting point which was infeasible by less than the np.allclose tolerance was evaluated as is.
---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 68e1405..4f38a8d 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1094,7 +1094,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         xp = dykstra(projections,x0,max_iter=params("dykstra.max_iters"),tol=params("dykstra.d_tol"))
         if not np.allclose(xp,x0):
             warnings.warn("x0 not feasible w.r.t given constraints, adjusting", RuntimeWarning)
-            x0 = xp.copy()
+        x0 = xp.copy()  # always use the projected point, even if x0 was only slightly infeasible
 
     # Enforce lower & upper bounds on x0
     idx = (x0 < xl)
-- 
2.43.0


From 1961674201ff5f516fc14e4c851546aa1590402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 04/52] fix: count the run only once if the budget is exhausted
 while sampling x0

---
 dfols/solver.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 4f38a8d..8bd7399 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -176,7 +176,6 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
         for i in range(1, number_of_samples):  # skip first eval - already did this
             if nf >= maxfun:
                 exit_info = ExitInformation(EXIT_MAXFUN_WARNING, "Objective has been called MAXFUN times")
-                nruns_so_far += 1
                 break  # stop evaluating at x0
 
             nf += 1
-- 
2.43.0


From 154fad13c441f4f18e9ca944d762456f988488f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 05/52] fix: report the correct objective and evaluation number
 when exiting at x0

The objective did not include the regularizer, and the solution was reported as evaluation point 0.
---
 dfols/solver.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 8bd7399..0bef097 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -188,17 +188,15 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
         r0_avg = np.mean(rvec_list[:num_samples_run, :], axis=0)
         # NOTE: modify objvalue here
-        if h is None:
-            if sumsq(r0_avg) <= params("model.abs_tol"):
-                exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
-        else:
-            if sumsq(r0_avg) + h(remove_scaling(x0, scaling_changes), *argsh)<= params("model.abs_tol"):
-                exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
+        obj0_avg = sumsq(r0_avg)
+        if h is not None:
+            obj0_avg += h(remove_scaling(x0, scaling_changes), *argsh)
+        if obj0_avg <= params("model.abs_tol"):
+            exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
 
         if exit_info is not None:
-            xmin_eval_num = 0
-            jacmin_eval_nums = np.array([0], dtype=int)
-            return x0, r0_avg, sumsq(r0_avg), None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, xmin_eval_num, jacmin_eval_nums
+            # x0 was evaluation point nx, and we have not built any Jacobian yet
+            return x0, r0_avg, obj0_avg, None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, nx, None
 
     else:  # have old r0 information (e.g. from previous restart), use this instead
 
-- 
2.43.0


From 73f1c898c342befadb400fda36beaf470091a921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 06/52] fix: save the incumbent's sample count and evaluation
 number before a soft restart

The evaluation counter and the number of samples were passed to save_point in the wrong order.
---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 4fee084..e351fe7 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -801,8 +801,8 @@ class Controller(object):
             assert rvec_to_save is not None, "Soft restart: specified x_to_save but not rvec_to_save"
             assert nsamples_to_save is not None, "Soft restart: specified x_to_save but not nsamples_to_save"
             self.model.save_point(x_in_abs_coords_to_save, rvec_to_save, nsamples_to_save, self.nx, x_in_abs_coords=True)
-        self.model.save_point(self.model.xopt(abs_coordinates=True), self.model.ropt(), self.nx,
-                              self.model.nsamples[self.model.kopt], x_in_abs_coords=True)
+        self.model.save_point(self.model.xopt(abs_coordinates=True), self.model.ropt(), self.model.nsamples[self.model.kopt],
+                              self.model.eval_num[self.model.kopt], x_in_abs_coords=True)
 
         if self.do_logging:
             module_logger.info("Soft restart [currently, f = %g after %g function evals]" % (self.model.objopt(), self.nf))
-- 
2.43.0


From 1e30fa5a775d7586e390eeafd9fc4f9e440cd3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 07/52] fix: keep the evaluation number of the first point of a
 hard restart

The starting point of every run was labelled as evaluation point 1.
---
 dfols/controller.py |  5 +++--
 dfols/model.py      |  4 ++--
 dfols/solver.py     | 10 ++++++----
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index e351fe7..f0e2437 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -101,7 +101,7 @@ class ExitInformation(object):
 
 class Controller(object):
     def __init__(self, objfun, argsf, x0, r0, r0_nsamples, xl, xu, projections, npt, rhobeg, rhoend, nf, nx, maxfun, params,
-                 scaling_changes, do_logging, h=None, lh=None, argsh = (), prox_uh=None, argsprox = ()):
+                 scaling_changes, do_logging, h=None, lh=None, argsh = (), prox_uh=None, argsprox = (), x0_eval_num=1):
         self.do_logging = do_logging
         self.objfun = objfun
         self.h = h
@@ -112,7 +112,8 @@ class Controller(object):
         self.argsprox = argsprox
         self.maxfun = maxfun
         self.model = Model(npt, x0, r0, xl, xu, projections, r0_nsamples, h=self.h, argsh = argsh, precondition=params("interpolation.precondition"),
-                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes)
+                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes,
+                           x0_eval_num=x0_eval_num)
         self.nf = nf
         self.nx = nx
         self.rhobeg = rhobeg
diff --git a/dfols/model.py b/dfols/model.py
index e2ecb55..eb5efc7 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -45,7 +45,7 @@ module_logger = logging.getLogger(__name__)
 
 class Model(object):
     def __init__(self, npt, x0, r0, xl, xu, projections, r0_nsamples, h=None, argsh=(), n=None, m=None, abs_tol=1e-12, rel_tol=1e-20, precondition=True,
-                 do_logging=True, scaling_changes=None):
+                 do_logging=True, scaling_changes=None, x0_eval_num=1):
         if n is None:
             n = len(x0)
         if m is None:
@@ -88,7 +88,7 @@ class Model(object):
         self.nsamples[0] = r0_nsamples
         self.objbeg = self.objval[0]  # f(x0), saved to check for sufficient reduction
         self.eval_num = np.zeros((npt,), dtype=int)  # which evaluation number (1-indexed, nx not nf) is currently stored self.points[k,:]
-        self.eval_num[0] = 1
+        self.eval_num[0] = x0_eval_num
 
         # Termination criteria
         self.abs_tol = abs_tol
diff --git a/dfols/solver.py b/dfols/solver.py
index 0bef097..77b1faa 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -150,7 +150,7 @@ class OptimResults(object):
 
 
 def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns_so_far, nf_so_far, nx_so_far, nsamples, params,
-               diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, default_growing_method_set_by_user=None,
+               diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, x0_eval_num_old=None, default_growing_method_set_by_user=None,
                do_logging=True, print_progress=False):
     # Evaluate at x0 (keep nf, nx correct and check for f < 1e-12)
     # The hard bit is determining what m = len(r0) should be, and allocating memory appropriately
@@ -188,6 +188,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
         r0_avg = np.mean(rvec_list[:num_samples_run, :], axis=0)
         # NOTE: modify objvalue here
+        x0_eval_num = nx
         obj0_avg = sumsq(r0_avg)
         if h is not None:
             obj0_avg += h(remove_scaling(x0, scaling_changes), *argsh)
@@ -196,13 +197,14 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
         if exit_info is not None:
             # x0 was evaluation point nx, and we have not built any Jacobian yet
-            return x0, r0_avg, obj0_avg, None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, nx, None
+            return x0, r0_avg, obj0_avg, None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, x0_eval_num, None
 
     else:  # have old r0 information (e.g. from previous restart), use this instead
 
         # m = len(r0_avg_old)
         r0_avg = r0_avg_old
         num_samples_run = r0_nsamples_old
+        x0_eval_num = x0_eval_num_old
         nf = nf_so_far
         nx = nx_so_far
     
@@ -220,7 +222,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
     # Initialise controller
     control = Controller(objfun, argsf, x0, r0_avg, num_samples_run, xl, xu, projections, npt, rhobeg, rhoend, nf, nx, maxfun,
-                         params, scaling_changes, do_logging, h=h, lh=lh, argsh=argsh,  prox_uh=prox_uh, argsprox=argsprox)
+                         params, scaling_changes, do_logging, h=h, lh=lh, argsh=argsh,  prox_uh=prox_uh, argsprox=argsprox, x0_eval_num=x0_eval_num)
 
     # Initialise interpolation set
     number_of_samples = max(nsamples(control.delta, control.rho, 0, nruns_so_far), 1)
@@ -1130,7 +1132,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         if params("restarts.hard.use_old_rk"):
             xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
                 solve_main(objfun, xmin, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns, nf, nx, nsamples, params,
-                            diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, r0_avg_old=rmin, r0_nsamples_old=nsamples_min,
+                            diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, r0_avg_old=rmin, r0_nsamples_old=nsamples_min, x0_eval_num_old=xmin_eval_num,
                            do_logging=do_logging, print_progress=print_progress)
         else:
             xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
-- 
2.43.0


From ce73ede758a76bfb950bfcbeb0011ba6b0c171f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 08/52] fix: parallel initialisation keeps evaluation numbers
 and all evaluated points

All points were labelled with the last evaluation number, and points evaluated after one
triggering an exit were dropped.
---
 dfols/controller.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index f0e2437..4ffeefd 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -269,21 +269,18 @@ class Controller(object):
                 
                 # Evaluate objective at this new point
                 x = self.model.as_absolute_coordinates(xpts_added[k, :])
-                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params))
+                eval_obj_results.append((x, *self.evaluate_objective(x, number_of_samples, params), self.nx))
             
             # Evaluations done, now add to the model
             for k in range(1, num_directions + 1):
-                x = self.model.as_absolute_coordinates(xpts_added[k, :])
-                rvec_list, obj_list, num_samples_run, exit_info = eval_obj_results[k-1]
+                x, rvec_list, obj_list, num_samples_run, exit_info, eval_num = eval_obj_results[k-1]
                 # Handle exit conditions (f < min obj value or maxfun reached)
                 if exit_info is not None:
-                    if num_samples_run > 0:
-                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
-                                              x_in_abs_coords=True)
+                    self.save_evaluated_points(eval_obj_results[k-1:])
                     return exit_info  # return & quit
 
                 # Otherwise, add new results (increments model.npt_so_far)
-                self.model.change_point(k, x - self.model.xbase, rvec_list[0, :], self.nx)  # expect step, not absolute x
+                self.model.change_point(k, x - self.model.xbase, rvec_list[0, :], eval_num)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(k, rvec_extra=rvec_list[i, :])
         else:
@@ -375,22 +372,18 @@ class Controller(object):
 
                 # Evaluate objective
                 x = self.model.as_absolute_coordinates(new_point)
-                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params))
+                eval_obj_results.append((x, *self.evaluate_objective(x, number_of_samples, params), self.nx))
 
             for ndirns in range(num_directions):
-                new_point = xopt + dirns[ndirns, :]  # alway base move around best value so far
-                x = self.model.as_absolute_coordinates(new_point)
-                rvec_list, obj_list, num_samples_run, exit_info = eval_obj_results[ndirns]
+                x, rvec_list, obj_list, num_samples_run, exit_info, eval_num = eval_obj_results[ndirns]
                 # Handle exit conditions (f < min obj value or maxfun reached)
                 if exit_info is not None:
-                    if num_samples_run > 0:
-                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
-                                              x_in_abs_coords=True)
+                    self.save_evaluated_points(eval_obj_results[ndirns:])
                     return exit_info  # return & quit
 
                 # Otherwise, add new results (increments model.npt_so_far)
                 self.model.change_point(1 + ndirns, x - self.model.xbase,
-                                        rvec_list[0, :], self.nx)  # expect step, not absolute x
+                                        rvec_list[0, :], eval_num)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(1 + ndirns, rvec_extra=rvec_list[i, :])
         else:
@@ -415,6 +408,13 @@ class Controller(object):
 
         return None
 
+    def save_evaluated_points(self, eval_obj_results):
+        # For parallel initialisation: if quitting, offer all points which we have evaluated but not yet added to the model
+        for x, rvec_list, obj_list, num_samples_run, exit_info, eval_num in eval_obj_results:
+            if num_samples_run > 0:
+                self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, eval_num,
+                                      x_in_abs_coords=True)
+
     def add_new_direction_while_growing(self, number_of_samples, params, min_num_steps=0):
         num_steps = max(params('growing.num_new_dirns_each_iter'), min_num_steps)
         step_length = params('growing.delta_scale_new_dirns') * self.delta
-- 
2.43.0


From b22f6b57af7a539dd4d4e7228106147ee39b331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 09/52] fix: store the evaluated (projected) points when using
 projections

Points were stored before projecting (with the default rather than user-specified Dykstra
settings) and projected again when queried, so the returned solution was not exactly the
point which was evaluated.
---
 dfols/controller.py | 10 +++++-----
 dfols/model.py      | 15 ++++++++++++---
 dfols/solver.py     |  2 +-
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 4ffeefd..d0d0536 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -113,7 +113,7 @@ class Controller(object):
         self.maxfun = maxfun
         self.model = Model(npt, x0, r0, xl, xu, projections, r0_nsamples, h=self.h, argsh = argsh, precondition=params("interpolation.precondition"),
                            abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes,
-                           x0_eval_num=x0_eval_num)
+                           x0_eval_num=x0_eval_num, dykstra_max_iters=params("dykstra.max_iters"), dykstra_tol=params("dykstra.d_tol"))
         self.nf = nf
         self.nx = nx
         self.rhobeg = rhobeg
@@ -455,7 +455,7 @@ class Controller(object):
                     return exit_info  # return & quit
 
             # Otherwise, add new results
-            self.model.change_point(kmin, xnew, rvec_list[0, :], self.nx)  # expect step, not absolute x
+            self.model.change_point(kmin, self.model.evaluated_step(xnew, x), rvec_list[0, :], self.nx)  # expect step, not absolute x
             for i in range(1, num_samples_run):
                 self.model.add_new_sample(kmin, rvec_extra=rvec_list[i, :])
 
@@ -586,7 +586,7 @@ class Controller(object):
             return exit_info  # didn't fix geometry - return & quit
 
         # Otherwise, add new results
-        self.model.change_point(knew, xnew, rvec_list[0, :], self.nx)  # expect step, not absolute x
+        self.model.change_point(knew, self.model.evaluated_step(xnew, x), rvec_list[0, :], self.nx)  # expect step, not absolute x
         for i in range(1, num_samples_run):
             self.model.add_new_sample(knew, rvec_extra=rvec_list[i, :])
 
@@ -858,7 +858,7 @@ class Controller(object):
                     return exit_info  # return & quit
 
                 # Otherwise, add new results
-                self.model.add_new_point(xnew, rvec_list[0, :], self.nx)  # expect step, not absolute x
+                self.model.add_new_point(self.model.evaluated_step(xnew, x), rvec_list[0, :], self.nx)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(self.model.npt() - 1, rvec_extra=rvec_list[i, :])
 
@@ -938,7 +938,7 @@ class Controller(object):
                 return exit_info  # return & quit
 
             # Otherwise, add new results
-            self.model.change_point(knew, xnew, rvec_list[0, :], self.nx)  # expect step, not absolute x
+            self.model.change_point(knew, self.model.evaluated_step(xnew, x), rvec_list[0, :], self.nx)  # expect step, not absolute x
             for i in range(1, num_samples_run):
                 self.model.add_new_sample(knew, rvec_extra=rvec_list[i, :])
         return None
diff --git a/dfols/model.py b/dfols/model.py
index eb5efc7..a0610ac 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -45,7 +45,7 @@ module_logger = logging.getLogger(__name__)
 
 class Model(object):
     def __init__(self, npt, x0, r0, xl, xu, projections, r0_nsamples, h=None, argsh=(), n=None, m=None, abs_tol=1e-12, rel_tol=1e-20, precondition=True,
-                 do_logging=True, scaling_changes=None, x0_eval_num=1):
+                 do_logging=True, scaling_changes=None, x0_eval_num=1, dykstra_max_iters=100, dykstra_tol=1e-10):
         if n is None:
             n = len(x0)
         if m is None:
@@ -73,6 +73,8 @@ class Model(object):
         self.sl = xl - self.xbase  # lower bound w.r.t. xbase (require xpt >= sl)
         self.su = xu - self.xbase  # upper bound w.r.t. xbase (require xpt <= su)
         self.projections = projections
+        self.dykstra_max_iters = dykstra_max_iters
+        self.dykstra_tol = dykstra_tol
         self.points = np.zeros((npt, n))  # interpolation points w.r.t. xbase
 
         # Function values
@@ -142,7 +144,9 @@ class Model(object):
         else:
             # Apply bounds and convert back to absolute coordinates
             if self.projections:
-                return dykstra(self.projections, self.xbase + self.points[k,:])
+                # All points were already projected before being evaluated, so projecting again would give a different point
+                # (except for the last set/bounds, which must still hold exactly after rounding errors)
+                return self.projections[-1](self.xbase + self.points[k,:])
             return self.as_absolute_coordinates(self.points[k, :])
 
     def rvec(self, k):
@@ -156,10 +160,15 @@ class Model(object):
     def as_absolute_coordinates(self, x, full_dykstra=False):
         # If x were an interpolation point, get the absolute coordinates of x
         if self.projections:
-            return dykstra(self.projections, self.xbase + x)
+            return dykstra(self.projections, self.xbase + x, max_iter=self.dykstra_max_iters, tol=self.dykstra_tol)
         # The final clipping is needed as rounding in xbase + (...) can give a point just outside the bounds
         return np.minimum(np.maximum(self.xl, self.xbase + np.minimum(np.maximum(self.sl, x), self.su)), self.xu)
 
+    def evaluated_step(self, step, x):
+        # The step (relative to xbase) corresponding to evaluating the objective at x = as_absolute_coordinates(step)
+        # With projections, this may be different to the original step
+        return x - self.xbase if self.projections else step
+
     def xpt_directions(self, include_kopt=True):
         if include_kopt:
             ndirs = self.npt()
diff --git a/dfols/solver.py b/dfols/solver.py
index 77b1faa..4bb8ce9 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -693,7 +693,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
             if do_logging:
                 module_logger.debug("Updating with knew = %i" % knew)
-            control.model.change_point(knew, xnew, rvec_list[0, :], control.nx)  # expect step, not absolute x
+            control.model.change_point(knew, control.model.evaluated_step(xnew, x), rvec_list[0, :], control.nx)  # expect step, not absolute x
             for i in range(1, num_samples_run):
                 control.model.add_new_sample(knew, rvec_extra=rvec_list[i, :])
 
-- 
2.43.0


From bb9b45c8b45a7e4be1f74707bc1501b1445a179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 10/52] fix: regularized subproblems use the bounds in absolute
 coordinates

The subproblem is formulated at the absolute position of the incumbent, but was projected onto
the bounds relative to the base point.
---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index d0d0536..ef8d3dc 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -495,7 +495,7 @@ class Controller(object):
                                 max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
                                 scaling_changes=self.scaling_changes, sfista_iters_scale=params("sfista.max_iters_scaling"))
         else:
-            proj = lambda x: pbox(x, self.model.sl, self.model.su)
+            proj = lambda x: pbox(x, self.model.xl, self.model.xu)  # x is in absolute coordinates
             d, gnew, crvmin = ctrsbox_sfista(self.model.xopt(abs_coordinates=True), gopt, np.zeros(H.shape), [proj], 1,
                                 self.h, self.lh, self.prox_uh, argsh = self.argsh, argsprox=self.argsprox, func_tol=func_tol, 
                                 max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
@@ -542,7 +542,7 @@ class Controller(object):
             else:
                 # NOTE: alternative way if using trsbox
                 # d, gnew, crvmin = trsbox(self.model.xopt(), gopt, H, self.model.sl, self.model.su, self.delta)
-                proj = lambda x: pbox(x, self.model.sl, self.model.su)
+                proj = lambda x: pbox(x, self.model.xl, self.model.xu)  # x is in absolute coordinates
                 d, gnew, crvmin = ctrsbox_sfista(self.model.xopt(abs_coordinates=True), gopt, H, [proj], self.delta,
                                       self.h, self.lh, self.prox_uh, argsh = self.argsh, argsprox=self.argsprox, func_tol=func_tol,
                                       max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
-- 
2.43.0


From 1ce3375a0199037da1ad8f5d3103f50f2d2ab2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 11/52] fix: evaluate the regularizer at the point where the
 residuals were evaluated

Steps from the regularized subproblem can be slightly outside the bounds and are clipped before
evaluation, but the stored objective used the regularizer at the unclipped point.
---
 dfols/model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index a0610ac..cb7dd3a 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -203,7 +203,7 @@ class Model(object):
         self.fval_v[k, :] = rvec.copy()
         self.objval[k] = sumsq(rvec)
         if self.h is not None:
-            self.objval[k] += self.h(remove_scaling(self.xbase + x, self.scaling_changes), *self.argsh)
+            self.objval[k] += self.h(remove_scaling(self.xpt(k, abs_coordinates=True), self.scaling_changes), *self.argsh)
         self.nsamples[k] = 1
         self.eval_num[k] = eval_num
         self.factorisation_current = False
@@ -232,7 +232,7 @@ class Model(object):
         # NOTE: how to sample when we have h? still at xpt(k), then add h(xpt(k)). Modify test if incorrect!
         self.objval[k] = sumsq(self.fval_v[k, :])
         if self.h is not None:
-            self.objval[k] += self.h(remove_scaling(self.xbase + self.points[k, :], self.scaling_changes), *self.argsh)
+            self.objval[k] += self.h(remove_scaling(self.xpt(k, abs_coordinates=True), self.scaling_changes), *self.argsh)
         self.nsamples[k] += 1
 
         self.kopt = np.argmin(self.objval[:self.npt()])  # make sure kopt is always the best value we have
@@ -241,14 +241,14 @@ class Model(object):
     def add_new_point(self, x, rvec, eval_num):
         self.points = np.append(self.points, x.reshape((1, self.n())), axis=0)  # append row to xpt
         self.fval_v = np.append(self.fval_v, rvec.reshape((1, self.m())), axis=0)  # append row to fval_v
+        self.num_pts += 1  # make sure npt is updated
+        self.npt_so_far += 1
         obj = sumsq(rvec)
         if self.h is not None:
-            obj += self.h(remove_scaling(self.xbase + x, self.scaling_changes), *self.argsh)
+            obj += self.h(remove_scaling(self.xpt(self.npt() - 1, abs_coordinates=True), self.scaling_changes), *self.argsh)
         self.objval = np.append(self.objval, obj)  # append entry to fval
         self.nsamples = np.append(self.nsamples, 1)  # add new sample number
         self.eval_num = np.append(self.eval_num, eval_num)  # add new evaluation number
-        self.num_pts += 1  # make sure npt is updated
-        self.npt_so_far += 1
 
         if obj < self.objopt():
             self.kopt = self.npt() - 1
-- 
2.43.0


From 593f5a380463971cfe826ea8d8d36d3618a33b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:45 +0000
Subject: [PATCH 12/52] fix: NaN objective values never replace or shadow
 finite ones in the model

All comparisons with NaN are false, so a NaN incumbent or saved point was never replaced by a
finite value (and np.argmin prefers NaN).
---
 dfols/model.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index cb7dd3a..06080e6 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -43,6 +43,11 @@ __all__ = ['Model']
 module_logger = logging.getLogger(__name__) 
 
 
+def is_better(obj1, obj2):
+    # Is obj1 a strictly better objective value than obj2? (anything is better than NaN)
+    return obj1 < obj2 or (np.isnan(obj2) and not np.isnan(obj1))
+
+
 class Model(object):
     def __init__(self, npt, x0, r0, xl, xu, projections, r0_nsamples, h=None, argsh=(), n=None, m=None, abs_tol=1e-12, rel_tol=1e-20, precondition=True,
                  do_logging=True, scaling_changes=None, x0_eval_num=1, dykstra_max_iters=100, dykstra_tol=1e-10):
@@ -208,7 +213,7 @@ class Model(object):
         self.eval_num[k] = eval_num
         self.factorisation_current = False
 
-        if allow_kopt_update and self.objval[k] < self.objopt():
+        if allow_kopt_update and is_better(self.objval[k], self.objopt()):
             self.kopt = k
         return
 
@@ -235,7 +240,10 @@ class Model(object):
             self.objval[k] += self.h(remove_scaling(self.xpt(k, abs_coordinates=True), self.scaling_changes), *self.argsh)
         self.nsamples[k] += 1
 
-        self.kopt = np.argmin(self.objval[:self.npt()])  # make sure kopt is always the best value we have
+        # make sure kopt is always the best value we have (np.argmin would choose NaN over anything else)
+        idx_not_nan = np.where(np.logical_not(np.isnan(self.objval[:self.npt()])))[0]
+        if len(idx_not_nan) > 0:
+            self.kopt = idx_not_nan[np.argmin(self.objval[idx_not_nan])]
         return
 
     def add_new_point(self, x, rvec, eval_num):
@@ -250,7 +258,7 @@ class Model(object):
         self.nsamples = np.append(self.nsamples, 1)  # add new sample number
         self.eval_num = np.append(self.eval_num, eval_num)  # add new evaluation number
 
-        if obj < self.objopt():
+        if is_better(obj, self.objopt()):
             self.kopt = self.npt() - 1
 
         self.factorisation_current = False
@@ -274,7 +282,7 @@ class Model(object):
         obj = sumsq(rvec)
         if self.h is not None:
             obj += self.h(remove_scaling(xabs, self.scaling_changes), *self.argsh)
-        if self.objsave is None or obj <= self.objsave:
+        if self.objsave is None or not is_better(self.objsave, obj):
             self.xsave = xabs
             self.rsave = rvec.copy()
             self.objsave = obj
@@ -288,7 +296,7 @@ class Model(object):
 
     def get_final_results(self):
         # Return x and objval for optimal point (either from xsave+objsave or kopt)
-        if self.objsave is None or self.objopt() <= self.objsave:  # optimal has changed since xsave+objsave were last set
+        if self.objsave is None or not is_better(self.objsave, self.objopt()):  # optimal has changed since xsave+objsave were last set
             return self.xopt(abs_coordinates=True).copy(), self.ropt().copy(), self.objopt(), self.model_jac.copy(), self.nsamples[self.kopt], self.eval_num[self.kopt], self.model_jac_eval_nums
         else:
             return self.xsave.copy(), self.rsave.copy(), self.objsave, self.jacsave, self.nsamples_save, self.eval_num_save, self.jacsave_eval_nums
-- 
2.43.0


From 75aa4ee59ce22116c3aa6b39998b0d8f08cdd396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:06 +0000
Subject: [PATCH 13/52] fix: discard the cached factorisation when a new sample
 changes the incumbent

The interpolation matrix is based at xopt, so a change of kopt in add_new_sample left a stale
factorisation.
---
 dfols/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/model.py b/dfols/model.py
index 06080e6..81992c6 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -244,6 +244,7 @@ class Model(object):
         idx_not_nan = np.where(np.logical_not(np.isnan(self.objval[:self.npt()])))[0]
         if len(idx_not_nan) > 0:
             self.kopt = idx_not_nan[np.argmin(self.objval[idx_not_nan])]
+        self.factorisation_current = False  # interpolation matrix is based at xopt, which may have changed
         return
 
     def add_new_point(self, x, rvec, eval_num):
-- 
2.43.0


From c895b6ef7e2c6b152732ce7995eb93604b4b6f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 14/52] fix: swap sample counts together with the points in
 Model.swap_points

---
 dfols/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/model.py b/dfols/model.py
index 81992c6..ae96c2a 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -221,6 +221,7 @@ class Model(object):
         self.points[[k1, k2], :] = self.points[[k2, k1], :]
         self.fval_v[[k1, k2], :] = self.fval_v[[k2, k1], :]
         self.objval[[k1, k2]] = self.objval[[k2, k1]]
+        self.nsamples[[k1, k2]] = self.nsamples[[k2, k1]]
         self.eval_num[[k1, k2]] = self.eval_num[[k2, k1]]
         if self.kopt == k1:
             self.kopt = k2
-- 
2.43.0


From 4a359376e87f9eadc61de8ab56ad8aeef823d473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 15/52] fix: do not lose the trial point when exiting after its
 evaluation

On trust region increase and linear algebra exits the point just evaluated was discarded, even
if it was the best point seen so far.
---
 dfols/controller.py | 2 ++
 dfols/solver.py     | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index ef8d3dc..5e64cdf 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -451,6 +451,8 @@ class Controller(object):
                 kmin, linalg_error = self.choose_point_to_replace(xnew - self.model.xopt(), skip_kopt=True)
 
                 if linalg_error:
+                    self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
+                                          x_in_abs_coords=True)
                     exit_info = ExitInformation(EXIT_LINALG_ERROR, "Singular matrix when finding kmin (in main loop)")
                     return exit_info  # return & quit
 
diff --git a/dfols/solver.py b/dfols/solver.py
index 4bb8ce9..484a5d2 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -612,6 +612,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
             # Estimate f in order to compute 'actual reduction'
             ratio, exit_info = control.calculate_ratio(control.model.xopt(abs_coordinates=True), current_iter, rvec_list[:num_samples_run, :], d, gopt, H)
             if exit_info is not None:
+                # The trial point is not going to be added to the model, but may be the best point so far
+                control.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, control.nx,
+                                         x_in_abs_coords=True)
                 if exit_info.able_to_do_restart() and params("restarts.use_restarts") and params(
                         "restarts.use_soft_restarts"):
                     number_of_samples = max(nsamples(control.delta, control.rho, current_iter, nruns_so_far), 1)
@@ -666,6 +669,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                 # Re-select knew, allowing knew=kopt this time
                 knew, exit_info = control.choose_point_to_replace(d, skip_kopt=False)
                 if exit_info is not None:
+                    # As above, save the trial point
+                    control.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, control.nx,
+                                             x_in_abs_coords=True)
                     if exit_info.able_to_do_restart() and params("restarts.use_restarts") and params(
                             "restarts.use_soft_restarts"):
                         number_of_samples = max(nsamples(control.delta, control.rho, current_iter, nruns_so_far), 1)
-- 
2.43.0


From 240b58b15efbf3d9cffba6c8fc5e3d49ddf0c747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 16/52] fix: only report the maximum number of unsuccessful
 restarts if this was why we stopped

The exit status was overwritten without hard restarts (if max_unsuccessful_restarts=0), and when
the last run had stopped because of the budget or a sufficiently small objective.
---
 dfols/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 484a5d2..31cba58 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1157,7 +1157,8 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
             if do_logging:
                 module_logger.info("Unsuccessful run with new f = %s compared to old f = %s" % (objmin2, objmin))
 
-    if nruns - last_successful_run >= params("restarts.max_unsuccessful_restarts"):
+    if params("restarts.use_restarts") and not params("restarts.use_soft_restarts") and exit_info.able_to_do_restart() and \
+            nruns - last_successful_run >= params("restarts.max_unsuccessful_restarts"):
         exit_info = ExitInformation(EXIT_SUCCESS, "Reached maximum number of unsuccessful restarts")
 
     # Process final return values & package up
-- 
2.43.0


From 32e4961a5fcad7b46ea5c507249b3c1f18cc54ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 17/52] fix: return a documented exit flag if a restart is
 detected with no budget left

---
 dfols/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dfols/solver.py b/dfols/solver.py
index 31cba58..ba9cdfa 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1161,6 +1161,10 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
             nruns - last_successful_run >= params("restarts.max_unsuccessful_restarts"):
         exit_info = ExitInformation(EXIT_SUCCESS, "Reached maximum number of unsuccessful restarts")
 
+    if exit_info.flag == EXIT_AUTO_DETECT_RESTART_WARNING:
+        # Wanted to do a restart, but this was not possible as there is no budget left
+        exit_info = ExitInformation(EXIT_MAXFUN_WARNING, "Objective has been called MAXFUN times")
+
     # Process final return values & package up
     exit_flag = exit_info.flag
     exit_msg = exit_info.message(with_stem=True)
-- 
2.43.0


From e6e1d8daf0a9500997b23c6ea11b7a5ca43348a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 18/52] fix: do not report success with a non-finite objective
 value

This could happen if restarts were exhausted without any finite value, or if f(x0) was infinite
(and so any value satisfied the relative tolerance on the objective).
---
 dfols/model.py  | 2 ++
 dfols/solver.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/dfols/model.py b/dfols/model.py
index ae96c2a..5a3a443 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -305,6 +305,8 @@ class Model(object):
 
     def min_objective_value(self):
         # Get termination criterion for f small: f <= abs_tol or f <= rel_tol * f0
+        if not np.isfinite(self.objbeg):  # a relative tolerance is meaningless in this case
+            return self.abs_tol
         return max(self.abs_tol, self.rel_tol * self.objbeg)
 
     def model_value(self, d, d_based_at_xopt=True, with_const_term=False):
diff --git a/dfols/solver.py b/dfols/solver.py
index ba9cdfa..eeffaa4 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1165,6 +1165,9 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         # Wanted to do a restart, but this was not possible as there is no budget left
         exit_info = ExitInformation(EXIT_MAXFUN_WARNING, "Objective has been called MAXFUN times")
 
+    if exit_info.flag == EXIT_SUCCESS and not np.isfinite(objmin):
+        exit_info = ExitInformation(EXIT_EVAL_ERROR, "No finite objective value found (%s)" % exit_info.message(with_stem=False))
+
     # Process final return values & package up
     exit_flag = exit_info.flag
     exit_msg = exit_info.message(with_stem=True)
-- 
2.43.0


From 20ec16f4929b2d04ffea68621b0810b8ee0b05bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 19/52] fix: include the regularizer in the objective used to
 detect successful soft restarts

---
 dfols/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 5e64cdf..9109099 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -131,7 +131,7 @@ class Controller(object):
         self.last_successful_iter = 0  # when ||d|| >= rho
         # For counting the number of soft restarts
         self.last_successful_run = 0
-        self.last_run_fopt = sumsq(r0)
+        self.last_run_fopt = self.model.objopt()
         self.scaling_changes = scaling_changes
 
     def n(self):
-- 
2.43.0


From 4fb0033bd92d4fc73f5fc69fc24d011719689ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 20/52] fix: rescale the controller's rhoend in soft restarts,
 and never reduce rho below it

Only the main loop's copy was scaled, so with restarts.rhoend_scale != 1 rho was reduced to the
wrong value and the main loop could get stuck trying to reduce it further.
---
 dfols/controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 9109099..9e8382e 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -728,7 +728,7 @@ class Controller(object):
         elif ratio <= 250.0:
             new_rho = sqrt(ratio) * self.rhoend  # geometric average of rho and rhoend
         else:
-            new_rho = alpha1 * self.rho
+            new_rho = max(alpha1 * self.rho, self.rhoend)
 
         self.delta = max(alpha2 * self.rho, new_rho)  # self.rho = old rho
         self.rho = new_rho
@@ -813,6 +813,7 @@ class Controller(object):
         # Note: closest points because we are suddenly increasing delta & rho, so we want to encourage spreading out points
         self.delta = self.rhobeg
         self.rho = self.rhobeg
+        self.rhoend = params("restarts.rhoend_scale") * self.rhoend
         self.diffs = [0.0, 0.0, 0.0]
         
         # Forget history of slow iterations
-- 
2.43.0


From 9e49a7db7a4ea4e6c2ab1c5893aba1f13870f004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 21/52] fix: keep the trust-region radius bounded and positive
 in regularized problems

---
 dfols/solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index eeffaa4..3c98693 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -345,6 +345,8 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                 # In some instances, gopt can have nan/inf values -- this ultimately calls a safety step and is generally fine
                 # but we need to set a value for tau nonetheless
                 tau = 1.0
+            if not tau > 0.0:  # criticality measure is zero/negative (up to rounding) or NaN
+                tau = 1.0
         
         if do_logging:
             module_logger.debug("Trust region step is d = " + str(d))
@@ -643,9 +645,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                 diagnostic_info.update_slow_iter(-1)  # n/a, unless otherwise update
             if ratio < params("tr_radius.eta1"):  # ratio < 0.1
                 if finished_growing:
-                    control.delta = min(params("tr_radius.gamma_dec") * control.delta, dnorm) / tau
+                    control.delta = min(min(params("tr_radius.gamma_dec") * control.delta, dnorm) / tau, 1.0e10)
                 else:
-                    control.delta = min(params("growing.gamma_dec") * control.delta, dnorm) / tau  # different gamma_dec
+                    control.delta = min(min(params("growing.gamma_dec") * control.delta, dnorm) / tau, 1.0e10)  # different gamma_dec
                 if params("logging.save_diagnostic_info"):
                     diagnostic_info.update_iter_type(ITER_ACCEPTABLE_NO_GEOM if ratio > 0.0
                                                      else ITER_UNSUCCESSFUL_NO_GEOM)  # we flag geom update below
-- 
2.43.0


From 4846741570219bde086540c74ece50821d3529fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 22/52] fix: pass extra arguments to the proximal operator only
 once

---
 dfols/trust_region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index e9159ad..e7327ee 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -143,7 +143,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
         prev_d = d.copy()
         prev_t = t
         # gradient_Fu at y
-        g_Fu = gradient_Fu(xopt, g, H, u, prox_uh, d, *argsprox)
+        g_Fu = gradient_Fu(xopt, g, H, u, prox_uh, d)
 
         # main update step
         d = proj(y - g_Fu / l)
@@ -154,7 +154,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
 
         # update true gradient
         # gnew is the gradient of the smoothed function
-        gnew = gradient_Fu(xopt, g, H, u, prox_uh, d, *argsprox)
+        gnew = gradient_Fu(xopt, g, H, u, prox_uh, d)
 
         # update CRVMIN
         crv = d.dot(H).dot(d)/sumsq(d) if sumsq(d) >= ZERO_THRESH else crvmin
-- 
2.43.0


From ab3aa99af58302aa115a88ab4d14434c47472e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 23/52] fix: input errors return a result object instead of
 raising TypeError

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 3c98693..3df4954 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1093,7 +1093,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is not None:
         exit_flag = exit_info.flag
         exit_msg = exit_info.message(with_stem=True)
-        results = OptimResults(None, None, None, None, 0, 0, 0, exit_flag, exit_msg)
+        results = OptimResults(None, None, None, None, 0, 0, 0, exit_flag, exit_msg, None, None)
         return results
 
     # Enforce arbitrary constraint bounds on x0
-- 
2.43.0


From 96c1bef35e65182112b2be4c1614d4f9331ceb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 24/52] fix: results expose all documented exit flags

---
 dfols/controller.py | 2 +-
 dfols/solver.py     | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 9e8382e..9649f3d 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -41,7 +41,7 @@ from .util import *
 
 __all__ = ['Controller', 'ExitInformation', 'EXIT_SLOW_WARNING', 'EXIT_MAXFUN_WARNING', 'EXIT_SUCCESS',
            'EXIT_INPUT_ERROR', 'EXIT_TR_INCREASE_ERROR', 'EXIT_LINALG_ERROR', 'EXIT_FALSE_SUCCESS_WARNING',
-           'EXIT_AUTO_DETECT_RESTART_WARNING', 'EXIT_EVAL_ERROR']
+           'EXIT_AUTO_DETECT_RESTART_WARNING', 'EXIT_TR_INCREASE_WARNING', 'EXIT_EVAL_ERROR']
 
 module_logger = logging.getLogger(__name__) 
 
diff --git a/dfols/solver.py b/dfols/solver.py
index 3df4954..08ac75f 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -70,6 +70,8 @@ class OptimResults(object):
         self.EXIT_TR_INCREASE_ERROR = EXIT_TR_INCREASE_ERROR
         self.EXIT_LINALG_ERROR = EXIT_LINALG_ERROR
         self.EXIT_FALSE_SUCCESS_WARNING = EXIT_FALSE_SUCCESS_WARNING
+        self.EXIT_TR_INCREASE_WARNING = EXIT_TR_INCREASE_WARNING
+        self.EXIT_EVAL_ERROR = EXIT_EVAL_ERROR
 
     def __str__(self):
         # Result of calling print(soln)
-- 
2.43.0


From eb436ecbec2c6ec3bd81e95d42045581ecd16c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 25/52] fix: reject parameter values which cannot give a valid
 run

---
 dfols/params.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dfols/params.py b/dfols/params.py
index 7fe9ac2..b853d28 100644
--- a/dfols/params.py
+++ b/dfols/params.py
@@ -187,7 +187,7 @@ class ParameterList(object):
         elif key == "model.rel_tol":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, 1.0
         elif key == "slow.history_for_slow":
-            type_str, nonetype_ok, lower, upper = 'int', False, 0, None
+            type_str, nonetype_ok, lower, upper = 'int', False, 1, None
         elif key == "slow.thresh_for_slow":
             type_str, nonetype_ok, lower, upper = 'float', False, 0, None
         elif key == "slow.max_slow_iters":
@@ -273,7 +273,7 @@ class ParameterList(object):
         elif key == "dykstra.d_tol":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, None
         elif key == "dykstra.max_iters":
-            type_str, nonetype_ok, lower, upper = 'int', False, 0, None
+            type_str, nonetype_ok, lower, upper = 'int', False, 1, None
         elif key == "matrix_rank.r_tol":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, None
         elif key == "func_tol.criticality_measure":
@@ -281,7 +281,7 @@ class ParameterList(object):
         elif key == "func_tol.tr_step":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, 1.0
         elif key == "func_tol.max_iters":
-            type_str, nonetype_ok, lower, upper = 'int', False, 0, None
+            type_str, nonetype_ok, lower, upper = 'int', False, 1, None
         elif key == "sfista.max_iters_scaling":
             type_str, nonetype_ok, lower, upper = 'float', False, 1.0, None
         else:
-- 
2.43.0


From 3bb497d20c3be0a969f991b72b840e20ce0c06c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 26/52] fix: input checks reject NaN values, and invalid bounds
 when scaling

---
 dfols/solver.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 08ac75f..243a700 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1008,7 +1008,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         ('growing.full_rank.use_full_rank_interp' in user_params or 'growing.perturb_trust_region_step' in user_params)
 
     scaling_changes = None
-    if scaling_within_bounds:
+    if scaling_within_bounds and xl.shape == x0.shape and xu.shape == x0.shape and np.all(xl < xu):  # otherwise, input error below
         shift = xl.copy()
         scale = xu - xl
         scaling_changes = (shift, scale, xl.copy(), xu.copy())
@@ -1024,19 +1024,19 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
             exit_info = ExitInformation(EXIT_INPUT_ERROR, "Must provide prox_uh input if h is not None")
         elif lh is None:
             exit_info = ExitInformation(EXIT_INPUT_ERROR, "Must provide lh input if h is not None")
-        elif lh <= 0.0:
+        elif not 0.0 < lh < np.inf:
             exit_info = ExitInformation(EXIT_INPUT_ERROR, "lh must be strictly positive")
 
     if exit_info is None and npt < n + 1:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "npt must be >= n+1 for linear models with inexact interpolation")
 
-    if exit_info is None and rhobeg <= 0.0:
+    if exit_info is None and not rhobeg > 0.0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "rhobeg must be strictly positive")
 
-    if exit_info is None and rhoend <= 0.0:
+    if exit_info is None and not rhoend > 0.0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "rhoend must be strictly positive")
 
-    if exit_info is None and rhobeg <= rhoend:
+    if exit_info is None and not rhobeg > rhoend:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "rhobeg must be > rhoend")
 
     if exit_info is None and maxfun <= 0:
@@ -1045,13 +1045,16 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is None and np.shape(x0) != (n,):
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "x0 must be a vector")
 
+    if exit_info is None and np.any(np.isnan(x0)):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "x0 must not contain NaN values")
+
     if exit_info is None and np.shape(x0) != np.shape(xl):
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "lower bounds must have same shape as x0")
 
     if exit_info is None and np.shape(x0) != np.shape(xu):
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "upper bounds must have same shape as x0")
 
-    if exit_info is None and np.min(xu - xl) < 2.0 * rhobeg:
+    if exit_info is None and not np.min(xu - xl) >= 2.0 * rhobeg:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "gap between lower and upper must be at least 2*rhobeg")
 
     if maxfun <= npt:
-- 
2.43.0


From 77f9afd64a0cfd042100e2e8e3a94300ef7b2dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:46 +0000
Subject: [PATCH 27/52] fix: reject None for parameters which cannot be None,
 and values preventing progress

---
 dfols/solver.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 243a700..2ffcec1 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1063,7 +1063,16 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     # Check invalid parameter values
 
     all_ok, bad_keys = params.check_all_params(npt)
-    if exit_info is None and not all_ok:
+    if user_params is not None:
+        # Setting a parameter to None does not change its value, so need to check this separately
+        bad_keys += [key for (key, val) in user_params.items() if val is None and not params.check_param(key, val, npt)]
+    # Avoid parameters with valid type/range, but where the solver cannot make progress
+    if params.check_param("tr_radius.alpha1", params("tr_radius.alpha1"), npt) and params("tr_radius.alpha1") >= 1.0:
+        bad_keys.append("tr_radius.alpha1")
+    for key in ["growing.delta_scale_new_dirns", "restarts.rhoend_scale"]:
+        if params.check_param(key, params(key), npt) and params(key) <= 0.0:
+            bad_keys.append(key)
+    if exit_info is None and len(bad_keys) > 0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "Bad parameters: %s" % str(bad_keys))
 
     if exit_info is None and params("growing.safety.full_geom_step"):
-- 
2.43.0


From 3a1142c4063f1827eb95c3f6a1c637cf8fcc0870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 28/52] fix: use random initial directions when there are too
 few coordinate directions

---
 dfols/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 2ffcec1..a18babe 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -230,7 +230,8 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
     number_of_samples = max(nsamples(control.delta, control.rho, 0, nruns_so_far), 1)
     num_directions = min(params("growing.ndirs_initial") + params("restarts.hard.increase_ndirs_initial_amt") * nruns_so_far,
                          npt - 1)  # cap at npt
-    if params("init.random_initial_directions"):
+    if params("init.random_initial_directions") or (not projections and npt > (len(x0) + 1) * (len(x0) + 2) // 2):
+        # (only have enough coordinate directions for fully quadratic interpolation, may have more points after hard restarts)
         if do_logging:
             module_logger.info("Initialising (random directions)")
         exit_info = control.initialise_random_directions(number_of_samples, num_directions, params)
-- 
2.43.0


From 1bce3f42c605fc3c689f94b308cbf14ac06e96ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:52 +0000
Subject: [PATCH 29/52] fix: failing to find initial directions inside
 constraints is reported, not raised

---
 dfols/controller.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 9649f3d..ffe8468 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -148,9 +148,9 @@ class Controller(object):
             module_logger.debug("Initialising with coordinate directions")
         # self.model already has x0 evaluated, so only need to initialise the other points
         # num_directions = params("growing.ndirs_initial")
-        assert self.model.num_pts <= (self.n() + 1) * (self.n() + 2) // 2, "prelim: must have npt <= (n+1)(n+2)/2"
         assert 1 <= num_directions < self.model.num_pts, "Initialisation: must have 1 <= ndirs_initial < npt"
-
+        if not self.model.projections:
+            assert self.model.num_pts <= (self.n() + 1) * (self.n() + 2) // 2, "prelim: must have npt <= (n+1)(n+2)/2"
 
         if self.model.projections:
             D = np.zeros((self.n(),self.n()))
@@ -230,7 +230,7 @@ class Controller(object):
                 i += 1
 
             if D_rank != num_directions:
-                raise RuntimeError("Unable to generate suitable initial directions")
+                return ExitInformation(EXIT_LINALG_ERROR, "Unable to generate suitable initial directions")
 
             # we have a L.I set of interpolation points
             for k in range(0,self.n()):
-- 
2.43.0


From 440b0388a55fb607169ec3278740c987e3939dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 30/52] fix: add_new_point keeps rows consistent if the model
 is still growing

---
 dfols/model.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index 5a3a443..27448a5 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -249,16 +249,17 @@ class Model(object):
         return
 
     def add_new_point(self, x, rvec, eval_num):
-        self.points = np.append(self.points, x.reshape((1, self.n())), axis=0)  # append row to xpt
-        self.fval_v = np.append(self.fval_v, rvec.reshape((1, self.m())), axis=0)  # append row to fval_v
+        idx = self.npt_so_far  # put after all current points (before any unused rows, if still growing)
+        self.points = np.insert(self.points, idx, x, axis=0)  # add row to xpt
+        self.fval_v = np.insert(self.fval_v, idx, rvec, axis=0)  # add row to fval_v
         self.num_pts += 1  # make sure npt is updated
         self.npt_so_far += 1
         obj = sumsq(rvec)
         if self.h is not None:
             obj += self.h(remove_scaling(self.xpt(self.npt() - 1, abs_coordinates=True), self.scaling_changes), *self.argsh)
-        self.objval = np.append(self.objval, obj)  # append entry to fval
-        self.nsamples = np.append(self.nsamples, 1)  # add new sample number
-        self.eval_num = np.append(self.eval_num, eval_num)  # add new evaluation number
+        self.objval = np.insert(self.objval, idx, obj)  # add entry to fval
+        self.nsamples = np.insert(self.nsamples, idx, 1)  # add new sample number
+        self.eval_num = np.insert(self.eval_num, idx, eval_num)  # add new evaluation number
 
         if is_better(obj, self.objopt()):
             self.kopt = self.npt() - 1
-- 
2.43.0


From 8959b56b4b505a05d6d6f736869253f5f15fb57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:09 +0000
Subject: [PATCH 31/52] fix: soft restarts can be done before the interpolation
 set has finished growing

---
 dfols/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index ffe8468..0eba569 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -830,7 +830,7 @@ class Controller(object):
             closest_points = closest_points[1:params("restarts.soft.num_geom_steps")+1]
             upper_limit = self.model.num_pts - 1
 
-        for i in range(min(params("restarts.soft.num_geom_steps"), upper_limit)):
+        for i in range(min(params("restarts.soft.num_geom_steps"), upper_limit, len(closest_points))):
             # Determine which point to update (knew)
             knew = closest_points[i]
 
-- 
2.43.0


From 0e59c51ddb44e2de1ffe627dcde69e5bcfd42d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 32/52] fix: random orthogonal directions are never longer than
 requested

---
 dfols/util.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dfols/util.py b/dfols/util.py
index 7a653a1..917318b 100644
--- a/dfols/util.py
+++ b/dfols/util.py
@@ -149,11 +149,8 @@ def random_orthog_directions_within_bounds(num_pts, delta, lower, upper, with_ne
         for i in range(nactive):
             idx = idx_active[i]
             sign = 1.0 if idx_l[idx] else -1.0  # desired sign of direction shift
-            if upper[idx] - lower[idx] > delta:
-                results[idx, n+ninactive+i] = 2.0 * sign * delta
-            else:
-                results[idx, n + ninactive + i] = 0.5 * sign * (upper[idx] - lower[idx])
-                # To get correct scaling, don't use delta any more (too big), use the scaling as given by upper-lower
+            # Same direction as above (the other is infeasible), so use a different length (and not longer than delta)
+            results[idx, n+ninactive+i] = 0.5 * sign * min(delta, upper[idx] - lower[idx])
             results[:, n+ninactive+i] = get_scale(results[:, n+ninactive+i], 1.0, lower, upper)*results[:, n+ninactive+i]
     # 5. Pad out the rest with random extra directions
     for i in range(num_pts - (2*n if with_neg_dirns else n)):
-- 
2.43.0


From 4933efd62e65f041f660e0c6a2fcd95b2cf072d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 33/52] fix: new growing directions are well-defined if the
 current directions span the space

---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 0eba569..11ab5ef 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -427,7 +427,7 @@ class Controller(object):
         # Make direction orthogonal
         Y = self.model.xpt_directions(include_kopt=False).T  # columns are the current set of directions
         Q, R = LA.qr(Y, mode='economic')  # columns of Q are orthonormal basis for current set of directions
-        for k in range(Q.shape[1]):
+        for k in range(Q.shape[1] if Q.shape[1] < self.n() else 0):  # nothing is orthogonal to n directions
             qk = Q[:, k]
             for j in range(dirns.shape[0]):
                 dirns[j, :] = dirns[j, :] - np.dot(dirns[j, :], qk) * qk
@@ -470,7 +470,7 @@ class Controller(object):
         # Make direction orthogonal
         Y = self.model.xpt_directions(include_kopt=False).T  # columns are the current set of directions
         Q, R = LA.qr(Y, mode='economic')  # columns of Q are orthonormal basis for current set of directions
-        for k in range(Q.shape[1]):
+        for k in range(Q.shape[1] if Q.shape[1] < self.n() else 0):  # nothing is orthogonal to n directions
             qk = Q[:, k]
             dirn = dirn - np.dot(dirn, qk) * qk
 
-- 
2.43.0


From efd31b5f1711c5bbe05a30b0fcedc43bb33f1f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 34/52] fix: coordinate initialisation inside constraints does
 not use the global random state

---
 dfols/controller.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 11ab5ef..06d7631 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -154,6 +154,7 @@ class Controller(object):
 
         if self.model.projections:
             D = np.zeros((self.n(),self.n()))
+            rng = np.random.RandomState(0)  # not using random initial directions, so be reproducible
             k = 0
             while k < self.n():
                 ek = np.zeros(self.n())
@@ -186,7 +187,7 @@ class Controller(object):
 
             # Try random combination of negatives...
             k = 0
-            slctr = np.random.randint(0, 1+1, self.n()) # generate rand binary "selector" array
+            slctr = rng.randint(0, 1+1, self.n()) # generate rand binary "selector" array
             D_rank, diag = qr_rank(D,tol=params("matrix_rank.r_tol"))
             while D_rank != num_directions and k < 100*self.n():
                 if slctr[k%self.n()] == 1: # if selector says make -ve, make -ve
@@ -204,7 +205,7 @@ class Controller(object):
                     D_rank = D_rank2
 
                 # Go again
-                slctr = np.random.randint(0, 1+1, self.n())
+                slctr = rng.randint(0, 1+1, self.n())
                 k += 1
 
             # Set still not L.I? Try random directions
@@ -214,7 +215,7 @@ class Controller(object):
                 k = 0
                 while k < self.n():
                     if diag[k] < mr_tol:
-                        p = np.random.normal(size=self.n())
+                        p = rng.normal(size=self.n())
                         p = p/np.linalg.norm(p)
                         p = np.dot(p,min(1,self.delta))
                         yk = dykstra(self.model.projections, self.model.xbase + p, max_iter=params("dykstra.max_iters"), tol=params("dykstra.d_tol"))
-- 
2.43.0


From 9dc08033390c9f6d9d2f6349ecd9f9cc8ff3a507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 35/52] fix: results with diagnostic tables, NaN or infinite
 values survive a JSON round trip

---
 dfols/solver.py | 21 +++++++++++++++++----
 dfols/util.py   |  4 +++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index a18babe..62a7349 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -108,7 +108,7 @@ class OptimResults(object):
     
     def to_dict(self, replace_nan=True):
         # Convert to a serializable dict object suitable for saving in a json file
-        # If replace_nan=True, convert all NaN entries to None
+        # If replace_nan=True, convert all NaN entries to None (and infinite entries to strings, as these are also not valid in JSON)
         soln_dict = {}
         soln_dict['x'] = self.x.tolist() if self.x is not None else None
         soln_dict['resid'] = self.resid.tolist() if self.resid is not None else None
@@ -120,6 +120,10 @@ class OptimResults(object):
         soln_dict['flag'] = int(self.flag)
         soln_dict['msg'] = str(self.msg)
         soln_dict['diagnostic_info'] = self.diagnostic_info.to_dict() if self.diagnostic_info is not None else None
+        if soln_dict['diagnostic_info'] is not None:
+            for col in ['xk', 'rk']:  # entries are vectors (if saved)
+                if col in soln_dict['diagnostic_info']:
+                    soln_dict['diagnostic_info'][col] = {idx: val.tolist() for idx, val in soln_dict['diagnostic_info'][col].items()}
         soln_dict['xmin_eval_num'] = int(self.xmin_eval_num)
         soln_dict['jacmin_eval_nums'] = self.jacmin_eval_nums.tolist() if self.jacmin_eval_nums is not None else None
         if replace_nan:
@@ -131,10 +135,10 @@ class OptimResults(object):
     def from_dict(soln_dict):
         # Take a dict object containing OptimResults information, and return the relevant OptimResults object
         # Input soln_dict should come from soln.to_dict()
-        # Note: np.array(mylist, dtype=float) automatically converts None to NaN
+        # Note: np.array(mylist, dtype=float) automatically converts None to NaN, and 'Infinity' to inf
         x = np.array(soln_dict['x'], dtype=float) if soln_dict['x'] is not None else None
         resid = np.array(soln_dict['resid'], dtype=float) if soln_dict['resid'] is not None else None
-        obj = soln_dict['obj']
+        obj = float(soln_dict['obj']) if soln_dict['obj'] is not None else np.nan
         jacobian = np.array(soln_dict['jacobian'], dtype=float) if soln_dict['jacobian'] is not None else None
         nf = soln_dict['nf']
         nx = soln_dict['nx']
@@ -147,7 +151,16 @@ class OptimResults(object):
         soln = OptimResults(x, resid, obj, jacobian, nf, nx, nruns, flag, msg, xmin_eval_num, jacmin_eval_nums)
         
         if soln_dict['diagnostic_info'] is not None:
-            soln.diagnostic_info = pd.DataFrame.from_dict(soln_dict['diagnostic_info'])
+            diagnostic_info = {}
+            for col, values in soln_dict['diagnostic_info'].items():
+                # JSON keys are always strings, but row labels are integers
+                values = {int(idx): val for idx, val in values.items()}
+                if col in ['xk', 'rk']:
+                    values = {idx: np.array(val, dtype=float) for idx, val in values.items()}
+                elif any([val is None or val in ['Infinity', '-Infinity'] for val in values.values()]) and col != 'iter_type':
+                    values = {idx: float(val) if val is not None else np.nan for idx, val in values.items()}
+                diagnostic_info[col] = pd.Series(values)
+            soln.diagnostic_info = pd.DataFrame(diagnostic_info)
         return soln
 
 
diff --git a/dfols/util.py b/dfols/util.py
index 917318b..67ca631 100644
--- a/dfols/util.py
+++ b/dfols/util.py
@@ -274,12 +274,14 @@ def qr_rank(A,tol=1e-15):
 
 
 def replace_nan_with_none(d):
-    # Replace Nan values in a dict/list with None (used for JSON serializing of OptimResults object)
+    # Replace Nan values in a dict/list with None, and infinite values with strings (used for JSON serializing of OptimResults object)
     if isinstance(d, dict):
         return {k: replace_nan_with_none(v) for k, v in d.items()}
     elif isinstance(d, list):
         return [replace_nan_with_none(i) for i in d]
     elif isinstance(d, float) and math.isnan(d):
         return None
+    elif isinstance(d, float) and math.isinf(d):
+        return 'Infinity' if d > 0 else '-Infinity'
     else:
         return d
\ No newline at end of file
-- 
2.43.0


From ff9838c0c6cdfa9f427e8fae32923b3f9045dabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 36/52] fix: overflow in the full model does not raise when
 computing the trust-region step

---
 dfols/controller.py | 10 +++++++++-
 dfols/solver.py     |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 06d7631..33ec5d7 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -514,7 +514,9 @@ class Controller(object):
         # Build func_tol for trust region step
         # QUESTION: c1 = min{1, 1/delta_max^2}, but choose c1=1here; choose maxhessian = max(||H||_2,1)
         # QUESTION: when criticality_measure = 0? choose max(criticality_measure,1)
-        func_tol = (1-params("func_tol.tr_step")) * 1 * max(criticality_measure,1) * min(self.delta, max(criticality_measure,1) / max(np.linalg.norm(H, 2),1))
+        func_tol = None
+        if self.h is not None and np.all(np.isfinite(H)):
+            func_tol = (1-params("func_tol.tr_step")) * 1 * max(criticality_measure,1) * min(self.delta, max(criticality_measure,1) / max(np.linalg.norm(H, 2),1))
 
         if self.h is None:
             if self.model.projections:
@@ -527,6 +529,12 @@ class Controller(object):
                     crvmin = -1
                 else:
                     d, gnew, crvmin = ctrsbox_pgd(self.model.xopt(abs_coordinates=True), gopt, H, self.model.projections, self.delta, d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"))
+            elif not np.all(np.isfinite(gopt)) or not np.all(np.isfinite(H)):
+                # As above
+                module_logger.debug("nan/inf values in gopt and/or H, skipping trsbox")
+                d = np.zeros(gopt.shape)
+                gnew = gopt.copy()
+                crvmin = -1
             else:
                 d, gnew, crvmin = trsbox(self.model.xopt(), gopt, H, self.model.sl, self.model.su, self.delta)
         else:
diff --git a/dfols/solver.py b/dfols/solver.py
index 62a7349..3cda0c4 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -378,7 +378,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                                                    save_poisedness=params("logging.save_poisedness"))
             # norm_J_error is square of Frobenius norm of chgJ
             diagnostic_info.update_interpolation_information(interp_error, ls_interp_cond_num, linalg_resid,
-                                                             sqrt(norm_J_error), LA.norm(gopt), LA.norm(d))
+                                                             sqrt(norm_J_error), np.linalg.norm(gopt), np.linalg.norm(d))
 
         if dnorm < tau * params("general.safety_step_thresh") * control.rho and not finished_growing and params("growing.safety.do_safety_step"):
             if do_logging:
-- 
2.43.0


From 5fc955842798ae936c5fbbf25cbf55041be011be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 37/52] fix: growing steps outside the bounds are stored at the
 point which was actually evaluated

Otherwise the incumbent appears to be far away from itself, and could be
replaced by a geometry step (losing the best point).
---
 dfols/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dfols/model.py b/dfols/model.py
index 27448a5..b9b9ee0 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -172,7 +172,9 @@ class Model(object):
     def evaluated_step(self, step, x):
         # The step (relative to xbase) corresponding to evaluating the objective at x = as_absolute_coordinates(step)
         # With projections, this may be different to the original step
-        return x - self.xbase if self.projections else step
+        if self.projections:
+            return x - self.xbase
+        return np.minimum(np.maximum(self.sl, step), self.su)  # clipped to bounds, as in as_absolute_coordinates
 
     def xpt_directions(self, include_kopt=True):
         if include_kopt:
-- 
2.43.0


From d759db8ea282e3db26b8019651af5293cc6a1c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:29 +0000
Subject: [PATCH 38/52] fix: no OverflowError in S-FISTA from overflow-sized
 models

---
 dfols/trust_region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index e7327ee..1c933f2 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -109,7 +109,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
     try:
         MAX_LOOP_ITERS = ceil(sfista_iters_scale * delta * (L_h+sqrt(L_h*L_h+2*k_H*func_tol)) / func_tol)
         MAX_LOOP_ITERS = min(MAX_LOOP_ITERS, max_iters)
-    except ValueError:
+    except (ValueError, OverflowError):  # ceil of NaN or inf
         MAX_LOOP_ITERS = max_iters
     u =  2 * delta / (MAX_LOOP_ITERS * L_h) # smoothing parameter
     # u = 2 * func_tol / (L_h ** 2 + L_h * sqrt(L_h ** 2 + 2 * k_H * func_tol))  # the above choice works better in practice
-- 
2.43.0


From 51705da44c717d3b921df6d1b7eef474cb73e400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:05 +0000
Subject: [PATCH 39/52] fix: zero trust-region step with an objective increase
 is not a successful step

Its predicted reduction is -0.0, giving ratio = +inf, and the incumbent could
be replaced by the worse point.
---
 dfols/controller.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 33ec5d7..6324df3 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -764,7 +764,10 @@ class Controller(object):
                 exit_info = ExitInformation(EXIT_TR_INCREASE_WARNING, "Either multiple constraints are active or trust region step gave model increase")
             else:
                 exit_info = ExitInformation(EXIT_TR_INCREASE_ERROR, "Trust region step gave model increase")
-        ratio = actual_reduction / pred_reduction
+        if pred_reduction == 0.0:  # e.g. zero step (dividing by -0.0 would make an increase look like a success)
+            ratio = 1.0 if actual_reduction > 0.0 else -1.0
+        else:
+            ratio = actual_reduction / pred_reduction
         return ratio, exit_info
 
     def terminate_from_slow_iterations(self, current_iter, params):
-- 
2.43.0


From 9477f6eccd0d82ff72361121d714facf6255dfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:08 +0000
Subject: [PATCH 40/52] fix: no ZeroDivisionError if all interpolation points
 coincide (singular system, as usual)

---
 dfols/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfols/model.py b/dfols/model.py
index b9b9ee0..9c17f96 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -323,6 +323,8 @@ class Model(object):
         W = np.zeros((self.npt(), self.n()+1))
         if self.precondition:
             approx_delta = sqrt(np.max(self.distances_to_xopt()))  # largest distance to xopt ~ delta
+            if approx_delta == 0.0:  # all points are the same (gives a singular system below)
+                approx_delta = 1.0
         else:
             approx_delta = 1.0
 
-- 
2.43.0


From a0b4ade8c331f5d516e788dcdbea6ae32984668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:52 +0000
Subject: [PATCH 41/52] fix: soft restart while still growing cannot increase
 npt past restarts.max_npt

---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 6324df3..62adb3b 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -853,8 +853,8 @@ class Controller(object):
                 return exit_info
 
         # Now increase npt, if required
-        if params("restarts.increase_npt") and self.model.npt() < params("restarts.max_npt"):
-            num_pts_to_add = min(params("restarts.increase_npt_amt"), params("restarts.max_npt") - self.model.npt())
+        if params("restarts.increase_npt") and self.model.num_pts < params("restarts.max_npt"):
+            num_pts_to_add = min(params("restarts.increase_npt_amt"), params("restarts.max_npt") - self.model.num_pts)
             # First n points will be random orthogonal directions; the rest will be purely random directions
             # sl <= xopt + dirn <= su   -or equivalently-   sl-xopt <= dirn <= su-xopt
             xopt = self.model.xopt()
-- 
2.43.0


From c422226299122da9b2cce84f3c92097472416080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:01 +0000
Subject: [PATCH 42/52] fix: projected gradient subproblem solver copes with a
 zero Hessian (no division by zero)

---
 dfols/trust_region.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index 1c933f2..d4d6ae8 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -182,8 +182,10 @@ def ctrsbox_pgd(xopt, g, H, projections, delta, d_max_iters=100, d_tol=1e-10, us
     eta = 1.2 # L backtrack scaling factor
     t = 1
 
-    # Initial guess of L is norm(Hessian)
-    L = np.linalg.norm(H, 2)
+    # Initial guess of L is norm(Hessian), not too small relative to norm(gradient) [H=0 gives infinite steps]
+    L = max(np.linalg.norm(H, 2), 1e-6 * np.linalg.norm(g) / delta)
+    if L <= 0.0:  # constant model
+        return d, gnew, crvmin
 
     # trust region is a ball of radius delta around xopt
     trproj = lambda w: pball(w, xopt, delta)
-- 
2.43.0


From c5c733a79b5092427cbc0899511794f9a27143dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:03 +0000
Subject: [PATCH 43/52] fix: convex-constrained steps stay in the trust region
 when delta is small relative to xopt

---
 dfols/trust_region.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index d4d6ae8..1ae123b 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -134,7 +134,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
         p = dykstra(P, xopt+d0, max_iter=d_max_iters, tol=d_tol)
         # we want the step only, so we subtract xopt
         # from the new point: proj(xk+d) - xk
-        return p - xopt
+        return step_within_ball(p - xopt, delta)
 
     # general step
     model_value_best = model_value(g, H, d, xopt, h, argsh, scaling_changes)
@@ -197,7 +197,7 @@ def ctrsbox_pgd(xopt, g, H, projections, delta, d_max_iters=100, d_tol=1e-10, us
         p = dykstra(P, xopt+d0, max_iter=d_max_iters, tol=d_tol)
         # we want the step only, so we subtract xopt
         # from the new point: proj(xk+d) - xk
-        return p - xopt
+        return step_within_ball(p - xopt, delta)
 
     MAX_LOOP_ITERS = 100 * n ** 2
 
@@ -555,6 +555,13 @@ def d_within_bounds(d, xopt, sl, su, xbdi):
     return d
 
 
+def step_within_ball(d, delta):
+    # Forming (xopt + d) - xopt can give ||d|| > delta because of rounding errors if delta << ||xopt||, so shorten d if needed
+    # (towards d=0, so feasibility with respect to convex constraints is preserved)
+    dnorm = np.linalg.norm(d)
+    return (delta / dnorm) * d if dnorm > delta else d
+
+
 def ball_step(x0, g, Delta):
     # Given initial point x0, take largest step in direction g allowed by ||x|| <= Delta
     # That is, solve
@@ -599,7 +606,7 @@ def ctrsbox_linear(xbase, g, projections, Delta, d_max_iters=100, d_tol=1e-10, u
         p = dykstra(P, xbase + d0, max_iter=d_max_iters, tol=d_tol)
         # we want the step only, so we subtract
         # xbase from the new point: proj(xk + d) - xk
-        return p - xbase
+        return step_within_ball(p - xbase, Delta)
 
     MAX_LOOP_ITERS = 100 * n ** 2
 
-- 
2.43.0


From d9b12c36b0180512c102116b5e7bea37b0b0266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 44/52] fix: a hard restart from NaN to NaN is not a successful
 run (infinite restart loop)

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 3cda0c4..6d4fe8d 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1175,7 +1175,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
                 solve_main(objfun, xmin, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns, nf, nx, nsamples, params,
                            diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, do_logging=do_logging, print_progress=print_progress)
 
-        if objmin2 < objmin or np.isnan(objmin):
+        if objmin2 < objmin or (np.isnan(objmin) and not np.isnan(objmin2)):
             if do_logging:
                 module_logger.info("Successful run with new f = %s compared to old f = %s" % (objmin2, objmin))
             last_successful_run = nruns
-- 
2.43.0


From 8b978ec462ec11303f413b4aed4903573dc89088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:12 +0000
Subject: [PATCH 45/52] fix: trsbox steps stay in the trust region when delta
 is small relative to xopt

---
 dfols/trust_region.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index 1ae123b..fd3c31f 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -381,9 +381,12 @@ def trsbox(xopt, g, H, sl, su, delta, use_fortran=USE_FORTRAN):
     if need_alt_trust_step:
         crvmin = 0.0
         d, gnew = alt_trust_step(n, xopt, H, sl, su, d, xbdi, nact, gnew, qred)
-        return d, gnew, crvmin
     else:
-        return d_within_bounds(d, xopt, sl, su, xbdi), gnew, crvmin
+        d = d_within_bounds(d, xopt, sl, su, xbdi)
+    # Rounding errors from forming (xopt + d) - xopt may be significant if delta << ||xopt||
+    if np.linalg.norm(d) > (1.0 + 1e-9) * delta:
+        d = step_within_ball(d, delta)
+    return d, gnew, crvmin
 
 
 # Alternative Trust Region Step (label 100 of TRSBOX in BOBYQA, where crvmin=0)
-- 
2.43.0


From 8e6de88168f4851e9e2e908cb8626b545d0c5961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:31 +0000
Subject: [PATCH 46/52] fix: full rank interpolation model keeps its value at
 xopt when the Jacobian is modified

---
 dfols/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/model.py b/dfols/model.py
index 9c17f96..cbd39d8 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -422,6 +422,7 @@ class Model(object):
             s = np.maximum(s, floor_val)
             S = LA.diagsvd(s, k, k)  # s from vector to matrix of correct shape
             self.model_jac = np.dot(U, np.dot(S, Vt))  # reconstruct J from new svd
+            self.model_const = dg[0,:] - np.dot(self.model_jac, xopt)  # keep model value at xopt
 
         interp_error = 0.0
         if verbose:
-- 
2.43.0


From df93435f367dbc762f3264f16f2e6c01c7c6fbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 47/52] fix: tolerance of the regularized trust-region step
 decreases with the criticality measure

---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 62adb3b..5de27a6 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -513,10 +513,10 @@ class Controller(object):
         gopt, H = self.model.build_full_model()
         # Build func_tol for trust region step
         # QUESTION: c1 = min{1, 1/delta_max^2}, but choose c1=1here; choose maxhessian = max(||H||_2,1)
-        # QUESTION: when criticality_measure = 0? choose max(criticality_measure,1)
+        # The tolerance must decrease with the criticality measure, otherwise the steps are not accurate enough near a solution
         func_tol = None
         if self.h is not None and np.all(np.isfinite(H)):
-            func_tol = (1-params("func_tol.tr_step")) * 1 * max(criticality_measure,1) * min(self.delta, max(criticality_measure,1) / max(np.linalg.norm(H, 2),1))
+            func_tol = (1-params("func_tol.tr_step")) * 1 * max(criticality_measure,1e-8) * min(self.delta, max(criticality_measure,1e-8) / max(np.linalg.norm(H, 2),1))
 
         if self.h is None:
             if self.model.projections:
-- 
2.43.0


From 421470ff8b8fa4b3cb0fb08e1692443847dc020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 48/52] fix: smoothed gradient of the regularizer accounts for
 scaling within bounds

---
 dfols/trust_region.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index fd3c31f..ddd42ad 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -100,18 +100,23 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
     t = 1
     k_H = np.linalg.norm(H, 2)
     crvmin = -1.0
-    
+
+    # The regularizer is a function of the original (unscaled) variables
+    scale = scaling_changes[1] if scaling_changes is not None else 1.0
+    max_scale = np.max(scale)
+    L_hs = L_h * max_scale  # Lipschitz constant of h in the scaled variables
+
     # Number of iterations & smoothing parameter, from Theorem 10.57 in 
     #   [A. Beck. First-order methods in optimization, SIAM, 2017]
     # We do not use the values of k and mu given in the theorem statement, but rather the intermediate
     # results on p313 (K1 for number of iterations, and the immediate next line for mu)
     # Note: in the book's notation, Gamma=delta^2, alpha=1, beta=L_h^2/2, Lf=k_H [alpha and beta from Thm 10.51]
     try:
-        MAX_LOOP_ITERS = ceil(sfista_iters_scale * delta * (L_h+sqrt(L_h*L_h+2*k_H*func_tol)) / func_tol)
+        MAX_LOOP_ITERS = ceil(sfista_iters_scale * delta * (L_hs+sqrt(L_hs*L_hs+2*k_H*func_tol)) / func_tol)
         MAX_LOOP_ITERS = min(MAX_LOOP_ITERS, max_iters)
     except (ValueError, OverflowError):  # ceil of NaN or inf
         MAX_LOOP_ITERS = max_iters
-    u =  2 * delta / (MAX_LOOP_ITERS * L_h) # smoothing parameter
+    u =  2 * delta * max_scale / (MAX_LOOP_ITERS * L_h) # smoothing parameter
     # u = 2 * func_tol / (L_h ** 2 + L_h * sqrt(L_h ** 2 + 2 * k_H * func_tol))  # the above choice works better in practice
 
     def gradient_Fu(xopt, g, H, u, prox_uh, d):
@@ -119,10 +124,11 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
     # where Fu(d) := g(d) + h_u(d) and h_u(d) is a 1/u-smooth approximation of h.
     # We assume that h is globally Lipschitz continous with constant L_h,
     # then we can let h_u(d) be the Moreau Envelope M_h_u(d) of h.
-        return g + H @ d + (xopt + d - prox_uh(remove_scaling(xopt + d, scaling_changes), u, *argsprox)) / u
+        x = remove_scaling(xopt + d, scaling_changes)
+        return g + H @ d + scale * (x - prox_uh(x, u, *argsprox)) / u
 
     # Lipschitz constant of gradient_Fu
-    l = k_H + 1 / u 
+    l = k_H + max_scale**2 / u 
 
     # trust region is a ball of radius delta around xopt
     trproj = lambda w: pball(w, xopt, delta)
-- 
2.43.0


From 85773ad658f4659a0da32d780823b36f550feef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 49/52] fix: wrongly shaped bounds with projections give an
 input error instead of an exception

---
 dfols/solver.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 6d4fe8d..66347f8 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1006,9 +1006,10 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         projections = list(projections)
         projections.append(bproj)
 
-        # since using arbitrary constraints, don't constrain otherwise
-        xl = -1e20 * np.ones((n,))
-        xu = 1e20 * np.ones((n,))
+        # since using arbitrary constraints, don't constrain otherwise (wrong shapes give an input error below)
+        if xl.shape == x0.shape and xu.shape == x0.shape:
+            xl = -1e20 * np.ones((n,))
+            xu = 1e20 * np.ones((n,))
 
     # Set parameters
     params = ParameterList(int(n), int(npt), int(maxfun), objfun_has_noise=objfun_has_noise)  # make sure int, not np.int
-- 
2.43.0


From 5ee9a90b7354e5b21c41a243e83fca0294a48e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 50/52] fix: infinite x0 gives an input error instead of an
 exception

---
 dfols/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 66347f8..0cd916f 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1060,8 +1060,8 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is None and np.shape(x0) != (n,):
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "x0 must be a vector")
 
-    if exit_info is None and np.any(np.isnan(x0)):
-        exit_info = ExitInformation(EXIT_INPUT_ERROR, "x0 must not contain NaN values")
+    if exit_info is None and not np.all(np.isfinite(x0)):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "x0 must not contain NaN or infinite values")
 
     if exit_info is None and np.shape(x0) != np.shape(xl):
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "lower bounds must have same shape as x0")
-- 
2.43.0


From 69571ca4dc1b96b0258d278dfc0efe00ccb2bb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 51/52] fix: boolean values for integer parameters give an
 input error instead of an exception

---
 dfols/params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/params.py b/dfols/params.py
index b853d28..a9bae5f 100644
--- a/dfols/params.py
+++ b/dfols/params.py
@@ -313,7 +313,7 @@ def check_integer(val, lower=None, upper=None, allow_nonetype=False):
     # Check that val is an integer and (optionally) that lower <= val <= upper
     if val is None:
         return allow_nonetype
-    elif not isinstance(val, int):
+    elif not isinstance(val, int) or isinstance(val, bool):  # bool is a subclass of int
         return False
     else:  # is integer
         return (lower is None or val >= lower) and (upper is None or val <= upper)
-- 
2.43.0


From edc816f9716be2f8d1e5a76599c6d2c571d35566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 52/52] fix: soft restarts accept restarts.increase_npt_amt = 0

---
 dfols/controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 5de27a6..3277d1c 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -853,7 +853,8 @@ class Controller(object):
                 return exit_info
 
         # Now increase npt, if required
-        if params("restarts.increase_npt") and self.model.num_pts < params("restarts.max_npt"):
+        if params("restarts.increase_npt") and params("restarts.increase_npt_amt") > 0 and \
+                self.model.num_pts < params("restarts.max_npt"):
             num_pts_to_add = min(params("restarts.increase_npt_amt"), params("restarts.max_npt") - self.model.num_pts)
             # First n points will be random orthogonal directions; the rest will be purely random directions
             # sl <= xopt + dirn <= su   -or equivalently-   sl-xopt <= dirn <= su-xopt
-- 
2.43.0

