------------------------------- MODULE Inputs -------------------------------
(***************************************************************************)
(* Arguments of solve and what must become of them (C07).                  *)
(*                                                                         *)
(* The table gives for every user parameter its type, whether None is a    *)
(* value, and its range.  A call is described by what is special about its *)
(* arguments; Expect computes the obligation:                              *)
(*    "error"  an input-error result with zero evaluations                 *)
(*    "ok"     a well-formed result other than an input error              *)
(*    "unknown" ValueError                                                 *)
(*    "any"    either an input-error result or a well-formed result        *)
(*    "none"   no obligation (an infinite scale factor)                    *)
(* The table is itself closed under TLC's exhaustive enumeration: Classes  *)
(* lists every value class of every key, and the harness must have driven  *)
(* all of them (C07.table.complete).                                       *)
(***************************************************************************)
EXTENDS Verdict
VARIABLE l

T(type, none, lo, hi) == [type |-> type, none |-> none, lo |-> lo, hi |-> hi]
Table ==
  "general.rounding_error_constant" :> T("float", FALSE, "0", "-") @@
  "general.safety_step_thresh" :> T("float", FALSE, "0", "-") @@
  "general.check_objfun_for_overflow" :> T("bool", FALSE, "-", "-") @@
  "init.random_initial_directions" :> T("bool", FALSE, "-", "-") @@
  "init.run_in_parallel" :> T("bool", FALSE, "-", "-") @@
  "init.random_directions_make_orthogonal" :> T("bool", FALSE, "-", "-") @@
  "interpolation.precondition" :> T("bool", FALSE, "-", "-") @@
  "interpolation.throw_error_on_nans" :> T("bool", FALSE, "-", "-") @@
  "logging.n_to_print_whole_x_vector" :> T("int", FALSE, "0", "-") @@
  "logging.save_diagnostic_info" :> T("bool", FALSE, "-", "-") @@
  "logging.save_poisedness" :> T("bool", FALSE, "-", "-") @@
  "logging.save_xk" :> T("bool", FALSE, "-", "-") @@
  "logging.save_rk" :> T("bool", FALSE, "-", "-") @@
  "tr_radius.eta1" :> T("float", FALSE, "0", "1") @@
  "tr_radius.eta2" :> T("float", FALSE, "0", "1") @@
  "tr_radius.gamma_dec" :> T("float", FALSE, "0", "1") @@
  "tr_radius.gamma_inc" :> T("float", FALSE, "1", "-") @@
  "tr_radius.gamma_inc_overline" :> T("float", FALSE, "1", "-") @@
  "tr_radius.alpha1" :> T("float", FALSE, "0", "1") @@
  "tr_radius.alpha2" :> T("float", FALSE, "0", "1") @@
  "model.abs_tol" :> T("float", FALSE, "0", "-") @@
  "model.rel_tol" :> T("float", FALSE, "0", "1") @@
  "slow.history_for_slow" :> T("int", FALSE, "1", "-") @@
  "slow.thresh_for_slow" :> T("float", FALSE, "0", "-") @@
  "slow.max_slow_iters" :> T("int", FALSE, "0", "-") @@
  "noise.quit_on_noise_level" :> T("bool", FALSE, "-", "-") @@
  "noise.scale_factor_for_quit" :> T("float", FALSE, "0", "-") @@
  "noise.multiplicative_noise_level" :> T("float", TRUE, "0", "-") @@
  "noise.additive_noise_level" :> T("float", TRUE, "0", "-") @@
  "regression.num_extra_steps" :> T("int", FALSE, "0", "-") @@
  "regression.increase_num_extra_steps_with_restart" :> T("int", FALSE, "0", "-") @@
  "regression.momentum_extra_steps" :> T("bool", FALSE, "-", "-") @@
  "restarts.use_restarts" :> T("bool", FALSE, "-", "-") @@
  "restarts.max_unsuccessful_restarts" :> T("int", FALSE, "0", "-") @@
  "restarts.rhoend_scale" :> T("float", FALSE, "0", "-") @@
  "restarts.use_soft_restarts" :> T("bool", FALSE, "-", "-") @@
  "restarts.soft.num_geom_steps" :> T("int", FALSE, "0", "-") @@
  "restarts.soft.move_xk" :> T("bool", FALSE, "-", "-") @@
  "restarts.soft.max_fake_successful_steps" :> T("int", FALSE, "1", "-") @@
  "restarts.hard.use_old_rk" :> T("bool", FALSE, "-", "-") @@
  "restarts.increase_npt" :> T("bool", FALSE, "-", "-") @@
  "restarts.increase_npt_amt" :> T("int", FALSE, "0", "-") @@
  "restarts.hard.increase_ndirs_initial_amt" :> T("int", FALSE, "0", "-") @@
  "restarts.max_npt" :> T("int", FALSE, "npt", "-") @@
  "restarts.auto_detect" :> T("bool", FALSE, "-", "-") @@
  "restarts.auto_detect.history" :> T("int", FALSE, "1", "-") @@
  "restarts.auto_detect.min_chgJ_slope" :> T("float", FALSE, "0", "-") @@
  "restarts.auto_detect.min_correl" :> T("float", FALSE, "0", "1") @@
  "growing.ndirs_initial" :> T("int", FALSE, "1", "npt-1") @@
  "growing.num_new_dirns_each_iter" :> T("int", FALSE, "0", "-") @@
  "growing.delta_scale_new_dirns" :> T("float", FALSE, "0", "-") @@
  "growing.do_geom_steps" :> T("bool", FALSE, "-", "-") @@
  "growing.reset_delta" :> T("bool", FALSE, "-", "-") @@
  "growing.reset_rho" :> T("bool", FALSE, "-", "-") @@
  "growing.gamma_dec" :> T("float", FALSE, "0", "1") @@
  "growing.safety.do_safety_step" :> T("bool", FALSE, "-", "-") @@
  "growing.safety.reduce_delta" :> T("bool", FALSE, "-", "-") @@
  "growing.safety.full_geom_step" :> T("bool", FALSE, "-", "-") @@
  "growing.full_rank.use_full_rank_interp" :> T("bool", FALSE, "-", "-") @@
  "growing.full_rank.scale_factor" :> T("float", TRUE, "0", "-") @@
  "growing.full_rank.svd_scale_factor" :> T("float", TRUE, "0", "1") @@
  "growing.full_rank.min_sing_val" :> T("float", TRUE, "0", "1") @@
  "growing.full_rank.svd_max_jac_cond" :> T("float", TRUE, "1", "-") @@
  "growing.perturb_trust_region_step" :> T("bool", FALSE, "-", "-") @@
  "dykstra.d_tol" :> T("float", FALSE, "0", "-") @@
  "dykstra.max_iters" :> T("int", FALSE, "1", "-") @@
  "matrix_rank.r_tol" :> T("float", FALSE, "0", "-") @@
  "func_tol.criticality_measure" :> T("float", FALSE, "0", "1") @@
  "func_tol.tr_step" :> T("float", FALSE, "0", "1") @@
  "func_tol.max_iters" :> T("int", FALSE, "1", "-") @@
  "sfista.max_iters_scaling" :> T("float", FALSE, "1", "-")

\* in range for the table, but the solver may refuse them: nothing can be computed with these
Degenerate == {"tr_radius.alpha1", "growing.delta_scale_new_dirns", "restarts.rhoend_scale", "tr_radius.alpha2",
               "slow.history_for_slow", "restarts.auto_detect.history", "restarts.soft.max_fake_successful_steps"}
Limit(s, npt) == CASE s = "0" -> DZero [] s = "1" -> DOne [] s = "npt" -> DInt(npt) [] s = "npt-1" -> DInt(npt - 1)
InRange(k, v, npt) == LET t == Table[k] IN (t.lo = "-" \/ DLe(Limit(t.lo, npt), v)) /\ (t.hi = "-" \/ DLe(v, Limit(t.hi, npt)))
OnEdge(k, v, npt) == LET t == Table[k] IN (t.lo # "-" /\ DEq(Limit(t.lo, npt), v)) \/ (t.hi # "-" /\ DEq(v, Limit(t.hi, npt)))

\* verdict for one parameter: v = [t |-> python type, v |-> number]
Param(k, v, npt) ==
  IF k \notin DOMAIN Table THEN "unknown" ELSE
  LET t == Table[k] IN
  CASE v.t = "none" -> IF t.none THEN "ok" ELSE "error"
    [] v.t \in {"str", "list", "array", "dict"} -> "error"
    [] t.type = "bool" -> IF v.t = "bool" THEN "ok" ELSE IF v.t = "npbool" THEN "any" ELSE "error"
    [] t.type = "int" -> IF v.t = "int" THEN (IF ~InRange(k, v.v, npt) THEN "error" ELSE IF OnEdge(k, v.v, npt) /\ k \in Degenerate THEN "any" ELSE "ok")
                         ELSE IF v.t = "npint" THEN "any" ELSE "error"
    [] t.type = "float" -> IF v.t \in {"float", "npfloat"}
                           THEN (IF DIsNaN(v.v) \/ ~InRange(k, v.v, npt) THEN "error"
                                 ELSE IF ~DIsFin(v.v) /\ k \in Degenerate THEN "none"
                                 ELSE IF ~DIsFin(v.v) \/ (OnEdge(k, v.v, npt) /\ k \in Degenerate) THEN "any" ELSE "ok")
                           ELSE IF v.t \in {"npint", "npfloat32"} THEN "any" ELSE "error"

\* verdicts combine: an unknown name is reported first or together with an input error
Rank == <<"ok", "any", "error">>
Worst(S) == IF "error" \in S THEN "error" ELSE IF "none" \in S THEN "none" ELSE IF "any" \in S THEN "any" ELSE "ok"

Val(c, k, d) == IF \E i \in 1..Len(c.params) : c.params[i].k = k
                THEN LET i == CHOOSE i \in 1..Len(c.params) : c.params[i].k = k IN c.params[i].v ELSE d
Unset == [t |-> "unset", v |-> DZero]
IsTrue(c, k) == LET v == Val(c, k, Unset) IN v.t = "bool" /\ DEq(v.v, DOne)
IsNum(c, k) == LET v == Val(c, k, Unset) IN v.t \in {"float", "npfloat"}
IsSet(c, k) == Val(c, k, Unset).t # "unset"

\* contradictory options
Contradiction(c) ==
  LET quit == IsTrue(c, "noise.quit_on_noise_level") \/ (c.noise /\ ~IsSet(c, "noise.quit_on_noise_level")) IN
  Worst({IF IsTrue(c, "growing.safety.full_geom_step") /\ IsTrue(c, "growing.safety.reduce_delta") THEN "error" ELSE "ok",
         IF IsTrue(c, "growing.perturb_trust_region_step")
            THEN (IF IsTrue(c, "growing.full_rank.use_full_rank_interp") THEN "error"
                  ELSE IF IsSet(c, "growing.full_rank.use_full_rank_interp") THEN "ok" ELSE "any") ELSE "ok",
         IF quit /\ IsNum(c, "noise.multiplicative_noise_level") /\ IsNum(c, "noise.additive_noise_level") THEN "error" ELSE "ok",
         IF IsTrue(c, "growing.reset_rho") /\ ~IsTrue(c, "growing.reset_delta") THEN "error" ELSE "ok",
         \* documented for coordinate directions too if npt <= n + 1, but rejected by the implementation: either is accepted there
         IF IsTrue(c, "init.run_in_parallel") /\ ~IsTrue(c, "init.random_initial_directions") THEN (IF c.npt > c.n + 1 THEN "error" ELSE "any") ELSE "ok"})

\* the other arguments; numbers are exact
Args(c) ==
  Worst({IF c.npt < c.n + 1 THEN "error" ELSE "ok",
         IF DIsNaN(c.rhobeg) \/ DLe(c.rhobeg, DZero) THEN "error" ELSE "ok",
         IF DIsNaN(c.rhoend) \/ DLe(c.rhoend, DZero) THEN "error" ELSE "ok",
         IF ~DLt(c.rhoend, c.rhobeg) THEN "error" ELSE "ok",
         IF ~DIsFin(c.rhobeg) THEN "any" ELSE "ok",
         IF c.maxfun <= 0 THEN "error" ELSE "ok",
         IF ~c.h THEN "ok" ELSE IF ~c.hasprox \/ ~c.haslh THEN "error"
                ELSE IF DIsNaN(c.lh) \/ ~DIsFin(c.lh) THEN "any" ELSE IF DLe(c.lh, DZero) THEN "error" ELSE "ok",
         IF c.shape # "ok" THEN "error" ELSE "ok",
         IF c.shape # "ok" \/ c.proj THEN "ok"
            ELSE LET w == [i \in 1..c.n |-> DSub(c.hi[i], c.lo[i])]
                     two == IF c.scaling THEN c.rhobeg2 ELSE DMulInt(c.rhobeg, 2)
                 IN IF c.scaling
                    THEN (IF \E i \in 1..c.n : ~DLt(c.lo[i], c.hi[i]) THEN "error" ELSE IF DLt(DOne, DMulInt(c.rhobeg, 2)) THEN "error" ELSE "ok")
                    ELSE IF \E i \in 1..c.n : DLt(w[i], DMul(two, DSub(DOne, DPow2(-40)))) THEN "error"
                         ELSE IF \E i \in 1..c.n : DLt(w[i], DMul(two, DAdd(DOne, DPow2(-40)))) THEN "any" ELSE "ok",
         IF VIsFin(c.x0) THEN "ok" ELSE "any"})

Names(c) == {c.params[i].k : i \in 1..Len(c.params)}
Expect(c) ==
  IF Names(c) \ (DOMAIN Table) # {} THEN "unknown"
  ELSE Worst({Args(c), Contradiction(c)} \cup {Param(c.params[i].k, c.params[i].v, c.npt) : i \in 1..Len(c.params)})

DocFlags == {0, 1, 2, 3, 5, -1, -2, -3, -4}
Constants == {"EXIT_SUCCESS", "EXIT_MAXFUN_WARNING", "EXIT_SLOW_WARNING", "EXIT_FALSE_SUCCESS_WARNING", "EXIT_TR_INCREASE_WARNING",
              "EXIT_INPUT_ERROR", "EXIT_TR_INCREASE_ERROR", "EXIT_LINALG_ERROR", "EXIT_EVAL_ERROR"}
ErrorResult(r) == r.status = "ok" /\ r.inputerr /\ r.nf = 0 /\ r.calls = 0
WellFormed(e, r) == r.status = "ok" /\ ~r.inputerr /\ r.hasx /\ Len(r.x) = e.c.n /\ VIsFin(r.x) /\ Len(r.resid) >= 1
                 /\ r.nf >= 1 /\ r.nf = r.calls /\ r.nx >= 1 /\ r.nruns >= 1 /\ r.xe >= 1 /\ r.hasobj

CallClauses(e) ==
  LET r == e.r
      want == Expect(e.c)
      ret == r.status = "ok"
  IN Cl("C07.error", want = "error", ErrorResult(r))
     \cup Cl("C07.unknown", want = "unknown", r.status = "ValueError" /\ r.calls = 0)
     \cup Cl("C07.ok", want = "ok", WellFormed(e, r))
     \cup Cl("C07.any", want = "any", ErrorResult(r) \/ WellFormed(e, r))
     \cup Cl("C07.flag", ret, \E i \in 1..Len(r.consts) : r.consts[i].v = r.flag /\ r.consts[i].k \in Constants)
     \cup Cl("C07.msg", ret, r.msglen > 0)
     \cup Cl("C07.print", ret, r.strlen > 0)
     \cup Cl("C07.constants", ret, /\ Constants \subseteq {r.consts[i].k : i \in 1..Len(r.consts)}
                                  /\ \A i, j \in 1..Len(r.consts) : r.consts[i].v = r.consts[j].v => r.consts[i].k = r.consts[j].k)
\* a whole run with valid arguments
RunClauses(e) ==
  LET r == e.r IN
  Cl("C07.run.returns", TRUE, r.status = "ok")
  \cup (IF r.status # "ok" THEN {} ELSE
   Cl("C07.run.flag", TRUE, \E i \in 1..Len(r.consts) : r.consts[i].v = r.flag /\ r.consts[i].k \in Constants)
   \cup Cl("C07.run.msg", TRUE, r.msglen > 0)
   \cup Cl("C07.run.print", TRUE, r.strlen > 0)
   \cup Cl("C07.run.wellformed", TRUE, WellFormed(e, r)))

Clauses(e) == CASE e.e = "call" -> CallClauses(e)
                [] e.e = "run" -> RunClauses(e)
                [] e.e = "keys" -> Cl("C07.table.complete", TRUE, DOMAIN Table \subseteq {e.keys[i] : i \in 1..Len(e.keys)})

Init == l = 0 /\ TallyInit
Next == l < Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l + 1] IN Tally(e.id, l + 1, Clauses(e))
Spec == Init /\ [][Next]_l
Consumed == AllConsumed
=============================================================================
