------------------------------- MODULE BoxTR -------------------------------
(***************************************************************************)
(* Contract of the box trust-region subproblem solver (C12).               *)
(*                                                                         *)
(* Transition system: the environment submits a subproblem                 *)
(*     min g's + s'Hs/2   s.t.  sl <= xopt + s <= su,  |s| <= delta        *)
(* (a = sl - xopt, b = su - xopt rounded) and the solver answers with a    *)
(* step d and a gradient gnew.  Any answer satisfying the clauses is       *)
(* allowed; which one is left open.  Quantities the contract quantifies    *)
(* over (the best point of the steepest-descent ray) are supplied by the   *)
(* environment as witnesses which are checked here before they are used,   *)
(* so a wrong witness can only weaken the verdict.                         *)
(***************************************************************************)
EXTENDS Verdict
VARIABLE l

Q2(e, s) == DAdd(DMulInt(DDot(e.g, s), 2), DDot(s, MatVec(e.H, s)))      \* twice the model change
AbsV(v)   == [i \in 1..Len(v) |-> DAbs(v[i])]
AbsMat(H) == [i \in 1..Len(H) |-> AbsV(H[i])]
\* size of the terms of Q2 at steps bounded by v componentwise, for rounding
QSize(e, v) == DAdd(DMulInt(DDot(AbsV(e.g), v), 2), DDot(v, MatVec(AbsMat(e.H), v)))

\* steepest-descent direction with the variables that are blocked at a bound fixed
SD(e) == [i \in 1..e.n |-> IF (e.a[i] = DZero /\ DSgn(e.g[i]) >= 0) \/ (e.b[i] = DZero /\ DSgn(e.g[i]) <= 0)
                           THEN DZero ELSE DNeg(e.g[i])]
Clauses(e) ==
  LET n == e.n
      fin == Len(e.d) = n /\ VIsFin(e.d) /\ Len(e.gnew) = n /\ VIsFin(e.gnew)
  IN Cl("C12.answer", TRUE, e.status = "ok" /\ fin)
     \cup (IF ~(e.status = "ok" /\ fin) THEN {} ELSE
     LET gd == MatVec(e.H, e.d)
         \* the step is formed as a difference of points: rounding of its components
         ux == DMul(DPow2(-50), DAdd(VMaxAbs(e.xopt), e.delta))
         hs == MatVec(AbsMat(e.H), [i \in 1..n |-> DAdd(DAbs(e.d[i]), ux)])
         sz(s) == QSize(e, [i \in 1..n |-> DAdd(DAbs(s[i]), DMulInt(ux, 8))])
         \* what the rounding of d can do to the model value
         rd == DMulInt(DMul(ux, DAdd(VSumAbs(e.g), VSum(hs))), 8)
         qt == DAdd(DMul(DPow2(-42), sz(e.d)), rd)
         c  == VScale(e.t, SD(e))
         wit == DIsFin(e.t) /\ DSgn(e.t) >= 0 /\ VInBox(c, e.a, e.b) /\ DLe(DSumSq(c), Sq(e.delta))
         hm == VMaxAbs([j \in 1..n |-> VMaxAbs(e.H[j])])
         gt == DMul(DPow2(-36), DAdd(VMaxAbs(e.g), DMulInt(DMul(DAdd(DMul(e.delta, e.op8), ux), hm), n)))
         gr == DMulInt(DMul(ux, hm), 8 * n)
     IN Cl("C12.box", TRUE, \A i \in 1..n : (DLe(e.a[i], e.d[i]) \/ DLe(e.sl[i], e.xd[i]))
                                             /\ (DLe(e.d[i], e.b[i]) \/ DLe(e.xd[i], e.su[i])))
     \cup Cl("C12.ball", TRUE, DLe(DSumSq(e.d), Sq(DMul(e.delta, e.op8))))
     \cup Cl("C12.decrease", TRUE, DLe(Q2(e, e.d), qt))
     \cup Cl("C12.cauchy", wit /\ c # [i \in 1..n |-> DZero], DLe(Q2(e, e.d), DAdd(DMul(Q2(e, c), DSub(DOne, DPow2(-30))), DAdd(qt, DMul(DPow2(-42), sz(c))))))
     \cup Cl("C12.gnew", TRUE, \A i \in 1..n : DLe(DAbs(DSub(e.gnew[i], DAdd(e.g[i], gd[i]))), DAdd(gt, gr))))
Init == l = 0 /\ TallyInit
Next == l < Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l + 1] IN Tally(e.id, l + 1, Clauses(e))
Spec == Init /\ [][Next]_l
Consumed == AllConsumed
=============================================================================
