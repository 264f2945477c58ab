------------------------------ MODULE Dykstra ------------------------------
(***************************************************************************)
(* Contract of the alternating-projection routine (C15).                   *)
(*                                                                         *)
(* A call is observed through its projectors: how often they were applied, *)
(* the points of the last sweep (path[1] is the point before it), and the  *)
(* returned point.  One sweep applies all p projectors; the stopping       *)
(* quantity of a sweep is the sum of the squared moves in it, since every  *)
(* sub-step moves x by exactly the change of its correction vector.  The   *)
(* routine stopped by its rule iff it made fewer sweeps than allowed, or   *)
(* the quantity of the last sweep is below the tolerance.                  *)
(* Sets are given in closed form, so distances are decided exactly; the    *)
(* projection onto the intersection comes with a certificate (vectors of   *)
(* the normal cones) checked here before it is used.                       *)
(***************************************************************************)
EXTENDS Verdict, Sets
VARIABLE l

RECURSIVE PathSum(_, _)
PathSum(p, i) == IF i > Len(p) THEN DZero ELSE DAdd(VDist2(p[i], p[i - 1]), PathSum(p, i + 1))

\* ---- certificate: z is (nearly) the projection of x0 if x0 - z = sum of w_i, w_i (nearly) normal to set i at z
W(S, c, n) == IF S.kind \in {"half", "plane"} THEN VScale(c.mu, S.a) ELSE c.w
Gap(S, c, z) ==     \* support function of S at w, minus w.z  (an upper bound)
  CASE S.kind = "box" -> VSum([i \in 1..Len(z) |-> DSub(DMax(DMul(c.w[i], S.lo[i]), DMul(c.w[i], S.hi[i])), DMul(c.w[i], z[i]))])
    [] S.kind = "ball" -> DSub(DAdd(DDot(c.w, S.c), DMul(S.r, c.nw)), DDot(c.w, z))
    [] S.kind = "half" -> DMul(c.mu, DSub(S.b, DDot(S.a, z)))
    [] S.kind = "plane" -> DMul(c.mu, DSub(S.b, DDot(S.a, z)))
CertOk(S, c) == CASE S.kind = "ball" -> DSgn(c.nw) >= 0 /\ DLe(DSumSq(c.w), Sq(c.nw)) [] S.kind = "half" -> DSgn(c.mu) >= 0 [] OTHER -> TRUE
RECURSIVE VSumV(_, _)
VSumV(vs, i) == IF i = Len(vs) THEN vs[i] ELSE VAdd(vs[i], VSumV(vs, i + 1))
Certified(e) ==
  LET p == Len(e.sets)
      cs == e.cert
      res == VSub(VSub(e.x0, e.z), VSumV([i \in 1..p |-> W(e.sets[i], cs[i], e.n)], 1))
  IN /\ VIsFin(e.z)
     /\ \A i \in 1..p : CertOk(e.sets[i], cs[i]) /\ Within(e.sets[i], e.z, e.eps) /\ DLe(Gap(e.sets[i], cs[i], e.z), Sq(e.epsg))
     /\ DLe(DSumSq(res), Sq(e.eps))

Clauses(e) ==
  LET p == Len(e.sets)
      fin == e.status = "ok" /\ Len(e.x) = e.n /\ VIsFin(e.x)
      last == e.sets[p]
  IN Cl("C15.answer", TRUE, fin)
     \cup Cl("C15.sweeps", e.status = "ok", e.calls <= p * e.maxiter)
     \cup (IF ~fin THEN {} ELSE
     LET full == e.calls % p = 0 /\ e.calls >= p
         byrule == full /\ (e.calls < p * e.maxiter \/ DLt(PathSum(e.path, 2), DMul(e.tol, DSub(DOne, DPow2(-20)))))
         tau == DAdd(e.tau, e.ux)
         inside == \A i \in 1..p : e.inset[i]
     IN Cl("C15.feasible", byrule, \A i \in 1..p : Within(e.sets[i], e.x, tau))
        \cup Cl("C15.stops.early", e.calls < p * e.maxiter /\ ~full, \A i \in 1..p : Within(e.sets[i], e.x, tau))
        \cup Cl("C15.box.exact", last.kind = "box" /\ e.maxiter >= 1, VInBox(e.x, last.lo, last.hi))
        \cup Cl("C15.unchanged", inside /\ \A i \in 1..p : Within(e.sets[i], e.x0, DZero), DLe(VDist2(e.x, e.x0), Sq(DMulInt(e.ux, 64))))
        \cup Cl("C15.near", (byrule \/ e.calls < p * e.maxiter) /\ e.small /\ e.hasz /\ Certified(e), DLe(VDist2(e.x, e.z), Sq(e.near))))

Init == l = 0 /\ TallyInit
Next == l < Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l + 1] IN Tally(e.id, l + 1, Clauses(e))
Spec == Init /\ [][Next]_l
Consumed == AllConsumed
=============================================================================
