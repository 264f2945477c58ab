------------------------------ MODULE RunTrace ------------------------------
(***************************************************************************)
(* Trace validation of whole runs of dfols.solve.                          *)
(*                                                                         *)
(* The trace is a sequence of events recorded around the real solver:      *)
(*   start    the arguments (bounds, budget, radii, options)               *)
(*   nsamp    a call of the user's nsamples callback and its answer        *)
(*   eval     a call of the user's residual function: the exact point, the *)
(*            residuals it returned, h there, and the numbers in the log   *)
(*   restart  the solver's own report that a restart was performed         *)
(*   end      the returned object, or the exception                        *)
(*                                                                         *)
(* The state is what an observer knows: st.c (line of the start event),    *)
(* st.pts (first and last line of every evaluation point, in order),       *)
(* st.want (samples requested when the point was started), st.best (line   *)
(* of the best finite evaluation so far), counters.  Every event is        *)
(* accepted, and each property is a set of named clauses over the event    *)
(* and the state before it: verdicts are total, failures are printed and   *)
(* the run goes on.  All arithmetic is exact (module Dyadic).              *)
(***************************************************************************)
EXTENDS Verdict, Sets

VARIABLES l, st
vars == <<l, st>>

NoRun == [c |-> 0, n |-> 0, pts |-> <<>>, wants |-> <<>>, want |-> 1, best |-> 0, bestpre |-> 0, cand |-> 0,
          soft |-> 0, hard |-> 0, last |-> 0, maxruns |-> 0, nsmax |-> 0, lastkind |-> "none", raised |-> FALSE, ln |-> 0]

C == Trace[st.c]

\* ------------------------------------------------------------ objective
SqTop == DPow2(1024)
\* exact objective of an evaluation, as the user defines it: sum(r^2) + h(x)
ObjOf(e)    == DAdd(DSumSq(e.r), e.hv)
FinEval(e)  == VIsFin(e.r) /\ DIsFin(e.hv) /\ DLt(DSumSq(e.r), SqTop)
\* relative slack for the rounding of one dot product
RelTol(s, h) == DMul(DPow2(-40), DAdd(s, DAbs(h)))
ObjTol(e)    == RelTol(DSumSq(e.r), e.hv)
Better(a, b) == b = 0 \/ DLt(ObjOf(Trace[a]), ObjOf(Trace[b]))

\* -------------------------------------------------- the solution's point
PtFirst(k) == st.pts[k][1]
PtLast(k)  == st.pts[k][2]
\* lines of the evaluations of point k (events of other kinds may lie between)
PtLines(k) == {i \in PtFirst(k)..PtLast(k) : Trace[i].e = "eval"}
NSamp(k)   == Cardinality(PtLines(k))
RECURSIVE SumR(_, _)
SumR(i, hi) == IF i > hi THEN <<>>
               ELSE IF Trace[i].e # "eval" THEN SumR(i + 1, hi)
               ELSE LET rest == SumR(i + 1, hi) IN IF rest = <<>> THEN Trace[i].r ELSE VAdd(Trace[i].r, rest)
PtSum(k)   == SumR(PtFirst(k), PtLast(k))
RECURSIVE SumAbsR(_, _)
SumAbsR(i, hi) == IF i > hi THEN DZero
                  ELSE IF Trace[i].e # "eval" THEN SumAbsR(i + 1, hi)
                  ELSE DAdd(VSumAbs(Trace[i].r), SumAbsR(i + 1, hi))

\* ============================================================ clauses
\* ------------------------------------------------------------------ C01
C01Eval(e) ==
  Cl("C01.eval.finite", TRUE, VIsFin(e.x))
  \cup Cl("C01.eval.lower", TRUE, \A i \in 1..C.n : DLe(C.lo[i], e.x[i]))
  \cup Cl("C01.eval.upper", TRUE, \A i \in 1..C.n : DLe(e.x[i], C.hi[i]))
HasX(e) == e.status = "ok" /\ ~e.inputerr /\ e.hasx
C01End(e) ==
  Cl("C01.x.inbounds", HasX(e), VInBox(e.x, C.lo, C.hi))

\* ------------------------------------------------------------------ C02
NewPt(e) == e.lj # Len(st.pts)
C02Eval(e) ==
  Cl("C02.budget", TRUE, e.i <= C.maxfun)
  \cup (IF ~C.dolog \/ e.raised THEN {} ELSE
  Cl("C02.log.once", TRUE, e.nlog = 1)
  \cup Cl("C02.log.evalnum", e.nlog = 1, e.li = e.i)
  \cup Cl("C02.log.ptnum", e.nlog = 1, e.lj \in {Len(st.pts), Len(st.pts) + 1} /\ e.lj >= 1)
  \cup Cl("C02.same.x", e.lj = Len(st.pts) /\ e.lj >= 1, e.x = Trace[PtFirst(e.lj)].x)
  \* a new point is only started once the previous one has all its samples
  \cup Cl("C02.samples", e.lj = Len(st.pts) + 1 /\ Len(st.pts) >= 1, NSamp(Len(st.pts)) = st.wants[Len(st.pts)])
  \cup Cl("C02.samples.max", e.lj = Len(st.pts) /\ e.lj >= 1, NSamp(e.lj) < st.wants[e.lj]))
C02End(e) ==
  LET k == Len(st.pts) IN
  Cl("C02.nf", e.status = "ok", e.nf = st.n)
  \cup Cl("C02.nf.budget", e.status = "ok", e.nf <= C.maxfun)
  \cup Cl("C02.nx", e.status = "ok" /\ C.dolog, e.nx = k)
  \cup Cl("C02.nx.nf", e.status = "ok" /\ ~C.avg, e.nx = e.nf)
  \cup Cl("C02.last.samples", e.status = "ok" /\ C.dolog /\ k >= 1,
          NSamp(k) = st.wants[k] \/ (NSamp(k) < st.wants[k] /\ st.n = C.maxfun))

\* ------------------------------------------------------------------ C03
\* rounding of the base point arithmetic (xbase + step, scaling): 2^-42 relative to the largest coordinate seen
XTol(e) == DMul(DPow2(-42), e.maxabs)
Close(u, v, tol) == \A i \in 1..Len(u) : DLe(DAbs(DSub(u[i], v[i])), tol)
C03End(e) ==
  IF ~(e.status = "ok" /\ ~e.inputerr) THEN {} ELSE
  LET ok == e.hasx /\ e.xe >= 1 /\ e.xe <= Len(st.pts)
      ex == Trace[PtFirst(e.xe)]
      k  == NSamp(e.xe)
      sm == PtSum(e.xe)
      tol == DMul(DPow2(-40), SumAbsR(PtFirst(e.xe), PtLast(e.xe)))
      s2 == DSumSq(e.resid)
      ex2 == DAdd(s2, e.hx)
  IN Cl("C03.evalnum", C.dolog, ok)
     \cup (IF ~ok \/ ~C.dolog THEN {} ELSE
     Cl("C03.x", TRUE, Len(e.x) = C.n /\ VIsFin(e.x) /\ Close(e.x, ex.x, XTol(e)))
     \cup Cl("C03.resid.one", k = 1, Len(e.resid) = Len(ex.r) /\ e.resid = ex.r)
     \cup Cl("C03.resid.mean", k > 1 /\ VIsFin(sm),
             Len(e.resid) = Len(sm) /\ VIsFin(e.resid)
             /\ \A i \in 1..Len(sm) : DLe(DAbs(DSub(DMulInt(e.resid[i], k), sm[i])), tol)))
     \cup Cl("C03.obj", e.hasx /\ VIsFin(e.resid) /\ DIsFin(e.hx) /\ DLt(s2, DPow2(1022)),
             DIsFin(e.obj) /\ DLe(DAbs(DSub(e.obj, ex2)), RelTol(s2, e.hx)))
     \cup Cl("C03.obj.nan", e.hasx /\ VHasNaN(e.resid), DIsNaN(e.obj))

\* ------------------------------------------------------------------ C04
C04End(e) ==
  LET b == Trace[st.best]
      f0 == Trace[PtFirst(1)]
      usable == e.status = "ok" /\ ~e.inputerr /\ C.det /\ ~C.avg /\ st.best > 0
  IN Cl("C04.best", usable, DLe(e.obj, DAdd(ObjOf(b), ObjTol(b))))
     \cup Cl("C04.x0", usable /\ Len(st.pts) >= 1 /\ FinEval(f0), DLe(e.obj, DAdd(ObjOf(f0), ObjTol(f0))))
     \* a later run can only improve on an earlier one: the recorded best objective over all runs
     \cup Cl("C04.runs", usable /\ e.hasdiag /\ Len(e.diag) > 1,
             \A k \in 1..(Len(e.diag) - 1) :
                (DIsFin(e.diag[k].fk) /\ e.diag[k].run < e.diag[k+1].run) => DLe(e.diag[k+1].fk, DMul(e.diag[k].fk, DAdd(DOne, DPow2(-40)))))

\* ------------------------------------------------------------------ C08
C08Eval(e) ==
  Cl("C08.bounds", TRUE, VIsFin(e.x) /\ VInBox(e.x, C.lo, C.hi))
  \cup Cl("C08.budget", TRUE, e.i <= C.maxfun)
  \cup Cl("C08.nocall.after.exception", TRUE, ~st.raised)
C08End(e) ==
  LET pl == IF st.n < C.fault /\ st.cand > 0 /\ Better(st.cand, st.bestpre) THEN st.cand ELSE st.bestpre
      pre == Trace[pl]
  IN Cl("C08.exception.same", st.raised, e.status = "raise" /\ e.same)
     \cup (IF st.raised THEN {} ELSE
     Cl("C08.terminates", TRUE, e.status # "hang")
     \cup Cl("C08.noraise", ~C.thrownan, e.status # "raise")
     \cup Cl("C08.nf", e.status = "ok", e.nf = st.n)
     \cup (IF ~(e.status = "ok" /\ ~e.inputerr) THEN {} ELSE
     Cl("C08.x.finite", TRUE, e.hasx /\ VIsFin(e.x) /\ VInBox(e.x, C.lo, C.hi))
     \cup Cl("C08.x.evaluated", e.hasx /\ VIsFin(e.x),
             \E k \in 1..Len(st.pts) : Close(e.x, Trace[PtFirst(k)].x, XTol(e)))
     \cup Cl("C08.obj.finite", pl > 0, DIsFin(e.obj))
     \cup Cl("C08.obj.best", pl > 0 /\ ~C.avg /\ C.det, DLe(e.obj, DAdd(ObjOf(pre), ObjTol(pre))))
     \cup Cl("C08.success.finite", e.success, DIsFin(e.obj))))

\* ------------------------------------------------------------------ C09
\* e.out: how the point arose: "rule"/"cap" = output of the projection routine that met its stopping rule / ran out of sweeps,
\* "none" = no output of the routine, "unseen" = the routine was not observed at all in this run
C09Eval(e) ==
  LET p == Len(C.sets)
      far == DAdd(C.tau, C.ptol)
  IN Cl("C09.box", TRUE, VIsFin(e.x) /\ VInBox(e.x, C.lo, C.hi))
     \cup (IF ~VIsFin(e.x) THEN {} ELSE
     Cl("C09.output", e.i > 1 /\ e.out # "unseen", e.out # "none")
     \cup Cl("C09.x0", e.i = 1 /\ e.out # "unseen", e.out # "none")
     \cup Cl("C09.feasible", e.out = "rule", \A k \in 1..p : Within(C.sets[k], e.x, far))
     \cup Cl("C09.x0.feasible", e.i = 1 /\ e.out = "rule", \A k \in 1..p : Within(C.sets[k], e.x, far)))

\* ------------------------------------------------------------------ C10
RECURSIVE DPow(_, _)
DPow(a, k) == IF k = 0 THEN DOne ELSE DMul(a, DPow(a, k - 1))
Near(a, b, k) == DLe(DAbs(DSub(a, b)), DMul(DPow2(k), DAbs(b)))
C10End(e) ==
  IF ~(e.status = "ok" /\ ~e.inputerr) THEN {} ELSE
  LET ok0 == Len(st.pts) >= 1
      k0  == NSamp(1)
      sm  == PtSum(1)
      f0k == DAdd(DSumSq(sm), DMul(DMulInt(DOne, k0 * k0), Trace[PtFirst(1)].hv))   \* k0^2 * f(x0)
      thr == DMax(C.abstol, IF VIsFin(sm) /\ DIsFin(f0k) THEN DMul(C.reltol, f0k) ELSE DZero)
      \* compare k0^2*obj with max(k0^2*abstol, reltol*k0^2 f0)
      thr2 == DMax(DMulInt(C.abstol, k0 * k0), IF VIsFin(sm) /\ DIsFin(f0k) THEN DMul(C.reltol, f0k) ELSE DZero)
      nd  == Len(e.diag)
      started == st.soft + st.hard
      seen == IF nd > 0 /\ e.diag[nd].run > st.maxruns THEN e.diag[nd].run ELSE st.maxruns
      aborted == st.lastkind = "soft" /\ seen < started
      \* if f(x0) is not finite it gives no relative threshold; a hard restart then has its own starting value
      f0ok == VIsFin(sm) /\ DIsFin(f0k)
  IN Cl("C10.small", e.success /\ e.msg = "small" /\ C.dolog /\ ok0 /\ (f0ok \/ st.hard = 0),
        DLe(DMulInt(e.obj, k0 * k0), DMul(thr2, DAdd(DOne, DPow2(-40)))))
     \cup Cl("C10.rhoend", e.success /\ e.msg = "rhoend" /\ nd > 0,
        Near(e.diag[nd].rho, DMul(C.rhoend, DPow(C.rscale, e.nruns - 1)), -44))
     \cup Cl("C10.maxfun", e.maxfunwarn \/ e.msg = "maxfun", e.nf = C.maxfun /\ st.n = C.maxfun)
     \cup Cl("C10.unsucc", e.msg = "unsucc", e.nruns >= C.maxun /\ 1 + started >= C.maxun)
     \cup Cl("C10.nruns", C.dolog, e.nruns - 1 = started \/ (aborted /\ e.nruns - 1 = started - 1))
     \cup Cl("C10.nruns.seen", TRUE, e.nruns - 1 >= seen)
     \cup Cl("C10.success.finite", e.success, DIsFin(e.obj))

\* ------------------------------------------------------------------ C18
DocCols == {"rho", "delta", "fk", "interpolation_error", "interpolation_condition_number", "interpolation_change_J_norm",
            "interpolation_total_residual", "poisedness", "max_distance_xk", "norm_gk", "norm_sk", "nruns", "nf", "nx",
            "npt", "nsamples", "iter_this_run", "iters_total", "iter_type", "ratio", "slow_iter"}
C18End(e) ==
  IF ~(e.status = "ok" /\ ~e.inputerr /\ e.hasdiag) THEN {} ELSE
  LET D == e.diag
      nd == Len(D)
      R == 1..nd
      P == 1..(nd - 1)
      RhoEnd(k) == DMul(C.rhoend, DPow(C.rscale, D[k].run))
      maxnpt == IF C.incnpt /\ C.maxnpt > C.npt THEN C.maxnpt ELSE C.npt
      Same(k) == D[k].run = D[k+1].run
  IN IF nd = 0 THEN {} ELSE
     Cl("C18.rho.positive", TRUE, \A k \in R : DLt(DZero, D[k].rho))
     \cup Cl("C18.delta.ge.rho", TRUE, \A k \in R : DLe(D[k].rho, D[k].delta))
     \cup Cl("C18.delta.max", TRUE, \A k \in R : DLe(D[k].delta, DMul(DInt(100000), DInt(100000))))
     \cup Cl("C18.rho.le.rhobeg", TRUE, \A k \in R : DLe(D[k].rho, C.rhobeg))
     \cup Cl("C18.rho.ge.rhoend", TRUE, \A k \in R : DLe(DMul(RhoEnd(k), DSub(DOne, DPow2(-44))), D[k].rho))
     \cup Cl("C18.rho.mono", nd > 1 /\ ~C.resetrho, \A k \in P : Same(k) => DLe(D[k+1].rho, D[k].rho))
     \cup Cl("C18.fk.mono", nd > 1 /\ C.det /\ ~C.avg,
             \A k \in P : (Same(k) /\ DIsFin(D[k].fk)) => DLe(D[k+1].fk, D[k].fk))
     \cup Cl("C18.columns", TRUE, DocCols \subseteq {e.cols[i] : i \in 1..Len(e.cols)})
     \cup Cl("C18.iters.total", TRUE, \A k \in R : D[k].tot = k - 1)
     \cup Cl("C18.iters.run", TRUE, D[1].it = 0 /\ \A k \in P : D[k+1].it = (IF Same(k) THEN D[k].it + 1 ELSE 0))
     \cup Cl("C18.counters.mono", nd > 1,
             \A k \in P : D[k].nf <= D[k+1].nf /\ D[k].nx <= D[k+1].nx /\ D[k].run <= D[k+1].run)
     \cup Cl("C18.counters.final", TRUE,
             D[nd].nf <= e.nf /\ D[nd].nx <= e.nx /\ D[nd].run <= e.nruns /\ \A k \in R : D[k].nx <= D[k].nf /\ D[k].nx >= 1)
     \cup Cl("C18.npt", TRUE, \A k \in R : D[k].npt >= 2 /\ D[k].npt <= maxnpt)
     \* the number of points never exceeds the number of points evaluated
     \cup Cl("C18.npt.evals", TRUE, \A k \in R : D[k].npt <= D[k].nx)

\* ------------------------------------------------------------------ C11
\* J is the fit through the points in je: with constant term c = mean residual of (r - J x) the normal equations hold.
C11End(e) ==
  IF ~(e.status = "ok" /\ ~e.inputerr /\ e.hasj /\ e.hasje /\ C.proj = 0 /\ C.dolog) THEN {} ELSE
  LET K == Len(e.je)
      full == K >= C.n + 1 /\ \A k \in 1..K : e.je[k] >= 1
      valid == \A k \in 1..K : e.je[k] <= Len(st.pts)
  IN IF ~full THEN {} ELSE
     Cl("C11.evalnums", TRUE, valid)
     \cup (IF ~valid THEN {} ELSE
     LET X == [k \in 1..K |-> Trace[PtFirst(e.je[k])].x]
         S == [k \in 1..K |-> NSamp(e.je[k])]
         RS == [k \in 1..K |-> PtSum(e.je[k])]                 \* S[k] * mean residual
         one == \A k \in 1..K : S[k] = 1
         mx == Len(RS[1])
         fin == \A k \in 1..K : VIsFin(RS[k])
         shape == Len(e.jac) = mx /\ \A i \in 1..mx : Len(e.jac[i]) = C.n /\ VIsFin(e.jac[i])
         \* common denominator of the sample counts: work with L * mean
         L == IF one THEN 1 ELSE 60
         okS == \A k \in 1..K : (L % S[k]) = 0
         R == [k \in 1..K |-> VScale(DInt(L \div S[k]), RS[k])]   \* L * mean residual
         \* residual of the fit (times L) in component i: L*rbar - J (L x)
         V(i) == [k \in 1..K |-> DSub(R[k][i], DMulInt(DDot(e.jac[i], X[k]), L))]
         \* sizes
         Dx == [j \in 1..C.n |-> VMaxAbs([k \in 1..K |-> DSub(X[k][j], X[1][j])])]
         Mr(i) == VMaxAbs([k \in 1..K |-> R[k][i]])
         Bj(i) == DAdd(Mr(i), DMulInt(DAdd(DMul(VSumAbs(e.jac[i]), DMul(e.maxabs, DPow2(-8))),
                          DMul(DSumSq([j \in 1..C.n |-> DMul(e.jac[i][j], DMul(Dx[j], DOne))]), DZero)), L))
         JD(i) == VSum([j \in 1..C.n |-> DAbs(DMul(e.jac[i][j], Dx[j]))])
         tol(i) == DMul(DPow2(-36), DAdd(Bj(i), DMulInt(JD(i), L)))
         \* the constant of the fit: mean of V
         Mean(v) == VSum(v)                                     \* K * mean
     IN Cl("C11.shape", fin, shape)
        \cup Cl("C11.interp", fin /\ shape /\ okS /\ K = C.n + 1,
                \A i \in 1..mx : LET v == V(i) IN \A k \in 2..K : DLe(DAbs(DSub(v[k], v[1])), tol(i)))
        \cup Cl("C11.regress", fin /\ shape /\ okS /\ K > C.n + 1,
                \A i \in 1..mx : LET v == V(i)
                                     s == Mean(v)
                                     w == [k \in 1..K |-> DSub(DMulInt(v[k], K), s)]       \* K * (v - mean)
                                 IN \A j \in 1..C.n :
                                      DLe(DAbs(DDot(w, [k \in 1..K |-> DSub(X[k][j], X[1][j])])),
                                          DMulInt(DMul(tol(i), Dx[j]), 4 * K * K))))

\* ------------------------------------------------------------------ C07 (whole-run part)
DocFlags == {0, 1, 2, 3, 4, 5, -1, -2, -3, -4}
C07End(e) ==
  Cl("C07.returns", ~st.raised, e.status = "ok")
  \cup Cl("C07.flag", e.status = "ok", e.flag \in DocFlags \ {4})
  \cup Cl("C07.msg", e.status = "ok", e.msglen > 0)
  \cup Cl("C07.print", e.status = "ok", e.strlen > 0)
  \cup Cl("C07.input.noevals", e.status = "ok" /\ e.inputerr, st.n = 0 /\ e.nf = 0)
  \cup Cl("C07.wellformed", e.status = "ok" /\ ~e.inputerr,
          e.hasx /\ Len(e.x) = C.n /\ Len(e.resid) >= 1 /\ e.nf >= 1 /\ e.nx >= 1 /\ e.nruns >= 1 /\ e.xe >= 1)

\* ============================================================ transitions
EvalClauses(e) == CASE PROP = "C01" -> C01Eval(e)
                    [] PROP = "C09" -> C09Eval(e)
                    [] PROP = "C02" -> C02Eval(e)
                    [] PROP = "C08" -> C08Eval(e)
                    [] OTHER -> {}
EndClauses(e)  == (CASE PROP = "C01" -> C01End(e)
                    [] PROP = "C02" -> C02End(e)
                    [] PROP = "C03" -> C03End(e)
                    [] PROP = "C04" -> C04End(e)
                    [] PROP = "C07" -> C07End(e)
                    [] PROP = "C08" -> C08End(e)
                    [] PROP = "C10" -> C10End(e)
                    [] PROP = "C11" -> C11End(e)
                    [] PROP = "C18" -> C18End(e)
                    [] OTHER -> {})
                  \cup Cl(PROP \o ".readable.result", e.status = "badresult", FALSE)

Start(e) == st' = [NoRun EXCEPT !.c = l + 1]
Nsamp(e) == st' = [st EXCEPT !.want = Max2(1, e.ret), !.maxruns = Max2(@, e.nruns)]
Restart(e) == st' = [st EXCEPT !.soft = @ + (IF e.kind = "soft" THEN 1 ELSE 0),
                               !.hard = @ + (IF e.kind = "hard" THEN 1 ELSE 0), !.lastkind = e.kind]
Eval(e) ==
  /\ Tally(C.id, l + 1, EvalClauses(e))
  /\ LET k == Len(st.pts)
         \* without a log, every call is taken to be its own point
         same == C.dolog /\ e.nlog = 1 /\ e.lj = k /\ k >= 1
         fin == ~e.raised /\ FinEval(e)
     IN st' = [st EXCEPT !.n = @ + 1,
                         !.pts = IF e.raised THEN @
                                 ELSE IF same THEN [@ EXCEPT ![k] = <<@[1], l + 1>>] ELSE Append(@, <<l + 1, l + 1>>),
                         !.wants = IF e.raised \/ same THEN @ ELSE Append(@, st.want),
                         !.best = IF fin /\ Better(l + 1, @) THEN l + 1 ELSE @,
                         \* best of the points completed before the fault (a fault spoils the average at its own point)
                         !.bestpre = IF ~same /\ e.i <= C.fault /\ st.cand > 0 /\ Better(st.cand, @) THEN st.cand ELSE @,
                         !.cand = IF same THEN @ ELSE IF fin /\ e.i < C.fault THEN l + 1 ELSE 0,
                         !.raised = @ \/ e.raised]
End(e) == /\ Tally(C.id, l + 1, EndClauses(e))
          /\ st' = NoRun

Init == l = 0 /\ st = NoRun /\ TallyInit
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l + 1]
           IN CASE e.e = "start"   -> Start(e)
                [] e.e = "nsamp"   -> Nsamp(e)
                [] e.e = "eval"    -> Eval(e)
                [] e.e = "restart" -> Restart(e)
                [] e.e = "end"     -> End(e)
Spec == Init /\ [][Next]_vars

View == l
Consumed == AllConsumed
=============================================================================
