------------------------------ MODULE LinearLS ------------------------------
(***************************************************************************)
(* Linear least-squares problems are solved to global optimality (C05).    *)
(*                                                                         *)
(* One event per run: the problem (A, b, box), the returned point and a    *)
(* witness xs.  The witness is only an upper bound of the minimum: any     *)
(* feasible point is sound, since f(xs) >= f*.  Feasibility and objective  *)
(* of the witness and of the answer are evaluated exactly here.  A lower   *)
(* bound of f* from convexity and the smallest singular value says how     *)
(* tight the witness is; it is counted, not judged.                        *)
(***************************************************************************)
EXTENDS Verdict
VARIABLE l

ObjAt(e, x) == DSumSq(VSub(MatVec(e.A, x), e.b))
Eps(k) == DMul(DPow2(k), DOne)
\* 1e-6 rounded up to a dyadic: supplied by the trace as e.rel and checked to be at most 1.0001e-6
RelOk(e) == DLe(DMulInt(e.rel, 1000000), DAdd(DOne, DPow2(-13)))
\* f(x) >= f(xs) + g.(x - xs) + s2 |x - xs|^2, minimised over the box coordinate by coordinate; e.s2inv >= 1/(4 s2)
Gap(e) ==
  LET r == VSub(MatVec(e.A, e.xs), e.b)
      g == [j \in 1..e.n |-> DMulInt(DDot([i \in 1..Len(e.A) |-> e.A[i][j]], r), 2)]
      down(j) == IF DSgn(g[j]) > 0 THEN DMul(g[j], DSub(e.xs[j], e.lo[j])) ELSE DMul(g[j], DSub(e.xs[j], e.hi[j]))
      free(j) == DMul(Sq(g[j]), e.s2inv)
  IN VSum([j \in 1..e.n |-> IF DIsFin(IF DSgn(g[j]) > 0 THEN e.lo[j] ELSE e.hi[j]) THEN DMin(down(j), free(j)) ELSE free(j)])

Clauses(e) ==
  LET ret == e.status = "ok"
      fin == ret /\ Len(e.x) = e.n /\ VIsFin(e.x)
      witness == VIsFin(e.xs) /\ VInBox(e.xs, e.lo, e.hi) /\ RelOk(e)
      fs == ObjAt(e, e.xs)
      lim == DAdd(fs, DMul(e.rel, DAdd(DOne, fs)))
  IN Cl("C05.answer", TRUE, fin)
     \cup (IF ~fin THEN {} ELSE
       Cl("C05.feasible", TRUE, VInBox(e.x, e.lo, e.hi))
       \cup Cl("C05.success", TRUE, e.success)
       \cup Cl("C05.optimal", witness, DLe(ObjAt(e, e.x), lim))
       \cup Cl("C05.reported", witness, DIsFin(e.obj) /\ DLe(e.obj, lim) /\ DLe(DAbs(DSub(e.obj, ObjAt(e, e.x))), DMul(e.rel, DAdd(DOne, fs))))
       \cup Cl("C05.witness.tight", witness /\ DLe(Gap(e), DMul(DPow2(-27), DAdd(DOne, fs))), TRUE))

Init == l = 0 /\ TallyInit
Next == l < Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l + 1] IN Tally(e.id, l + 1, Clauses(e))
Spec == Init /\ [][Next]_l
Consumed == AllConsumed
=============================================================================
