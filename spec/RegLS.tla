------------------------------- MODULE RegLS -------------------------------
(***************************************************************************)
(* Linear least squares plus a convex Lipschitz regulariser (C06):         *)
(* h = lam |x|_1 or lam |x|_2, with or without bounds, optionally with     *)
(* extra arguments for the residuals, h and its proximal operator.         *)
(*                                                                         *)
(* xs is a feasible witness, so F(xs) >= F*.  The dual vector w of the     *)
(* certificate satisfies h(x) >= w.x for all x (checked here), so          *)
(* F(x) >= |Ax-b|^2 + w.x, whose minimum over the box is bounded below     *)
(* through the smallest singular value: this says how tight the witness    *)
(* is, and is counted, not judged.                                         *)
(***************************************************************************)
EXTENDS Verdict
VARIABLE l

LsAt(e, x) == DSumSq(VSub(MatVec(e.A, x), e.b))
\* bounds on h(x): e.hs (a number not below h(xs)) and e.hx (the harness's h(x)) are only used once verified
UpperH(e, v, x) == IF e.kind = "l1" THEN DLe(DMul(e.lam, VSumAbs(x)), v) ELSE DSgn(v) >= 0 /\ DLe(DMul(Sq(e.lam), DSumSq(x)), Sq(v))
NearH(e, v, x) == IF e.kind = "l1"
                  THEN LET t == DMul(e.lam, VSumAbs(x)) IN DLe(DAbs(DSub(v, t)), DMul(DPow2(-44), t))
                  ELSE LET t == DMul(Sq(e.lam), DSumSq(x)) IN DSgn(v) >= 0 /\ DLe(DAbs(DSub(Sq(v), t)), DMul(DPow2(-44), t))
DualOk(e) == IF e.kind = "l1" THEN DLe(VMaxAbs(e.w), e.lam) ELSE DLe(DSumSq(e.w), Sq(e.lam))
RelOk(e) == DLe(DMulInt(e.rel, 1000), DAdd(DOne, DPow2(-13)))
Gap(e) ==
  LET r == VSub(MatVec(e.A, e.xs), e.b)
      g == [j \in 1..e.n |-> DAdd(e.w[j], DMulInt(DDot([i \in 1..Len(e.A) |-> e.A[i][j]], r), 2))]
      down(j) == IF DSgn(g[j]) > 0 THEN DMul(g[j], DSub(e.xs[j], e.lo[j])) ELSE DMul(g[j], DSub(e.xs[j], e.hi[j]))
      free(j) == DMul(Sq(g[j]), e.s2inv)
  IN DAdd(DSub(e.hs, DDot(e.w, e.xs)),
          VSum([j \in 1..e.n |-> IF DIsFin(IF DSgn(g[j]) > 0 THEN e.lo[j] ELSE e.hi[j]) THEN DMin(down(j), free(j)) ELSE free(j)]))

Clauses(e) ==
  LET fin == e.status = "ok" /\ Len(e.x) = e.n /\ VIsFin(e.x)
      witness == VIsFin(e.xs) /\ VInBox(e.xs, e.lo, e.hi) /\ UpperH(e, e.hs, e.xs) /\ RelOk(e)
      Fs == DAdd(LsAt(e, e.xs), e.hs)
      tol == DMul(e.rel, DAdd(DOne, Fs))
      Fx == DAdd(LsAt(e, e.x), e.hx)
  IN Cl("C06.answer", TRUE, fin)
     \cup Cl("C06.args.f", e.args, e.badf = 0) \cup Cl("C06.args.h", e.args, e.badh = 0) \cup Cl("C06.args.prox", e.args, e.badp = 0)
     \cup (IF ~fin THEN {} ELSE
       Cl("C06.feasible", TRUE, VInBox(e.x, e.lo, e.hi))
       \cup Cl("C06.success", TRUE, e.success)
       \cup Cl("C06.optimal", witness /\ NearH(e, e.hx, e.x), DLe(Fx, DAdd(Fs, tol)))
       \cup Cl("C06.reported", witness /\ NearH(e, e.hx, e.x), DIsFin(e.obj) /\ DLe(e.obj, DAdd(Fs, tol)) /\ DLe(DAbs(DSub(e.obj, Fx)), tol))
       \cup Cl("C06.witness.tight", witness /\ DualOk(e) /\ DLe(Gap(e), DMul(DPow2(-17), DAdd(DOne, Fs))), TRUE))

Init == l = 0 /\ TallyInit
Next == l < Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l + 1] IN Tally(e.id, l + 1, Clauses(e))
Spec == Init /\ [][Next]_l
Consumed == AllConsumed
=============================================================================
