------------------------------- MODULE Steps -------------------------------
(***************************************************************************)
(* Contract of the geometry-improving and convex-constrained step solvers  *)
(* (C13).  Events:                                                         *)
(*   geom  maximise |c + g's| over  lo <= xb + s <= up, |s| <= delta;      *)
(*         the answer is the point x = xb + s                              *)
(*   conv  projected gradient / smoothed FISTA / convex geometry step d    *)
(*   pred  the regularised step d handed to the main loop, with the model  *)
(*         (g, H) and h at the two ends                                    *)
(* The maximiser of a linear function over box and ball lies on the        *)
(* clipped ray t -> clip(t g).  The environment supplies t; the clipped    *)
(* ray point is built and checked for feasibility here, and a matching     *)
(* upper bound (weak duality with multiplier mu = 1/t) is checked when     *)
(* available, so optimality is decided exactly and independently of how    *)
(* the solver works.                                                       *)
(***************************************************************************)
EXTENDS Verdict
VARIABLE l

Mx(a, b) == DMax(a, b)
Unit(v) == DAdd(VMaxAbs(v), DZero)
\* s[i] = clip(t * g[i]) into [a, b]
ClipRay(g, t, a, b) == [i \in 1..Len(g) |-> DMax(a[i], DMin(b[i], DMul(t, g[i])))]
Feas(s, a, b, dsq) == VInBox(s, a, b) /\ DLe(DSumSq(s), dsq)

Geom(e) ==
  LET n == e.n
      fin == Len(e.x) = n /\ VIsFin(e.x)
  IN Cl("C13.geom.answer", TRUE, e.status = "ok" /\ fin)
     \cup (IF ~(e.status = "ok" /\ fin) THEN {} ELSE
     LET s == VSub(e.x, e.xb)
         a == VSub(e.lo, e.xb)
         b == VSub(e.up, e.xb)
         ux == DMul(DPow2(-50), DAdd(VMaxAbs(e.xb), e.delta))
         e12(v, w) == DMul(e.tol12, Mx(DOne, Mx(DAbs(v), DAbs(w))))
         val(v) == DAbs(DAdd(e.c, DDot(e.g, v)))
         sg == VSumAbs(e.g)
         rnd == DMulInt(DAdd(DMul(ux, sg), DMul(DPow2(-46), DAdd(DAbs(e.c), DMul(sg, e.delta)))), 4)
         dsq == Sq(e.delta)
         w(t) == ClipRay(e.g, t, a, b)
         best(t) == Feas(w(t), a, b, dsq)
         box == \A i \in 1..n : DLe(DSub(e.lo[i], e12(e.lo[i], e.xb[i])), e.x[i]) /\ DLe(e.x[i], DAdd(e.up[i], e12(e.up[i], e.xb[i])))
     IN Cl("C13.geom.box", TRUE, box)
        \cup Cl("C13.geom.ball", TRUE, DLe(DSumSq(s), Sq(DAdd(DMul(e.delta, e.op8), ux))))
        \cup Cl("C13.geom.notworse", TRUE, DLe(val([i \in 1..n |-> DZero]), DAdd(val(s), rnd)))
        \cup UNION {Cl("C13.geom.max", best(e.t[k]), DLe(val(w(e.t[k])), DAdd(DMul(val(s), e.op6), rnd))) : k \in 1..Len(e.t)})

Conv(e) ==
  LET fin == Len(e.d) = e.n /\ VIsFin(e.d)
  IN Cl("C13." \o e.who \o ".answer", TRUE, e.status = "ok" /\ fin)
     \cup Cl("C13." \o e.who \o ".ball", e.status = "ok" /\ fin, DLe(DSumSq(e.d), Sq(DMul(e.delta, e.op8))))

AbsV(v)   == [i \in 1..Len(v) |-> DAbs(v[i])]
Pred(e) ==
  LET Q2 == DAdd(DMulInt(DDot(e.g, e.d), 2), DDot(e.d, MatVec(e.H, e.d)))
      sz == DAdd(DMulInt(DDot(AbsV(e.g), AbsV(e.d)), 2), DDot(AbsV(e.d), MatVec([i \in 1..e.n |-> AbsV(e.H[i])], AbsV(e.d))))
      fin == Len(e.d) = e.n /\ VIsFin(e.d) /\ DIsFin(e.h1)
      pr2 == DSub(DMulInt(DSub(e.h0, e.h1), 2), Q2)
      tol == DMul(DPow2(-40), DAdd(sz, DAdd(DAbs(e.h0), DAbs(e.h1))))
  IN Cl("C13.pred.answer", TRUE, fin)
     \cup Cl("C13.pred.nonneg", fin, DLe(DNeg(pr2), tol))
     \cup Cl("C13.pred.ball", fin, DLe(DSumSq(e.d), Sq(DMul(e.delta, e.op8))))

Clauses(e) == CASE e.e = "geom" -> Geom(e) [] e.e = "conv" -> Conv(e) [] e.e = "pred" -> Pred(e)
Init == l = 0 /\ TallyInit
Next == l < Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l + 1] IN Tally(e.id, l + 1, Clauses(e))
Spec == Init /\ [][Next]_l
Consumed == AllConsumed
=============================================================================
