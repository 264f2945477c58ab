------------------------------ MODULE InitSet ------------------------------
(***************************************************************************)
(* Initial interpolation set and random direction generators (C14).        *)
(*                                                                         *)
(* A behaviour of the initialisation is start, eval (npt of them), end.    *)
(* The state accumulates the points.  Every point is judged when it        *)
(* arrives (bounds, distance), the completed set at the end (distinct,     *)
(* affinely independent, condition number).  Distances are measured in the *)
(* coordinates the radius refers to: with scaling, in units of hi - lo     *)
(* (z below is a witness for (x - x0)/(hi - lo), verified before use).     *)
(* Event dirs: a call of one of the random direction generators.           *)
(***************************************************************************)
EXTENDS Verdict
VARIABLES l, st
vars == <<l, st>>
NoRun == [c |-> 0, pts |-> <<>>]
C == Trace[st.c]

\* rounding unit of a coordinate difference
Ux(c) == DMul(DPow2(-49), c.maxabs)
X0(c) == [i \in 1..c.n |-> DMax(c.lo[i], DMin(c.hi[i], c.x0[i]))]
\* z is (x - x0)/w up to rounding
ZOk(c, x, z) == Len(z) = c.n /\ VIsFin(z)
                /\ \A i \in 1..c.n : DLe(DAbs(DSub(DMul(z[i], c.w[i]), DSub(x[i], X0(c)[i]))), DMulInt(DAdd(Ux(c), DMul(DPow2(-49), c.w[i])), 4))
\* rounding of z
Uz(c) == IF c.scaled THEN DMul(DPow2(-40), DOne) ELSE DMulInt(Ux(c), 4)

EvalC(e) ==
  LET c == C
      k == Len(st.pts) + 1
      in == VIsFin(e.x) /\ VInBox(e.x, c.lo, c.hi)
      zok == ZOk(c, e.x, e.z)
      d2 == DSumSq(e.z)
      upb == DAdd(DMulInt(c.rhobeg, 2), Uz(c))
      lob == DSub(DMul(c.rhobeg, c.p01), Uz(c))
  IN Cl("C14.init.bounds", TRUE, in)
     \cup Cl("C14.init.first", k = 1, Len(e.x) = c.n /\ \A i \in 1..c.n : e.x[i] = X0(c)[i]
                                             \/ (c.scaled /\ DLe(DAbs(DSub(e.x[i], X0(c)[i])), Ux(c))))
     \cup Cl("C14.init.far", k > 1 /\ k <= c.npt /\ in /\ zok, DLe(d2, Sq(upb)))
     \cup Cl("C14.init.near", k > 1 /\ k <= c.npt /\ in /\ zok, DLe(Sq(lob), d2) \/ DSgn(lob) <= 0)
EndC(e) ==
  LET c == C
      K == c.npt
      Z == [k \in 1..(K - 1) |-> Trace[st.pts[k + 1]].z]
      Xs == [k \in 1..K |-> Trace[st.pts[k]].x]
      ok == Len(st.pts) >= K
      W(v) == DSumSq(MatVec(Z, v))
      \* u and v witness a condition number of at least 1e4 if |Wu|^2 |v|^2 >= 1e8 |Wv|^2 |u|^2
      nzero(v) == Len(v) = c.n /\ VIsFin(v) /\ DSumSq(v) # DZero
      ill == DLe(DMul(DMul(W(e.v), DSumSq(e.u)), DMul(DInt(10000), DInt(10000))), DMul(W(e.u), DSumSq(e.v)))
  IN Cl("C14.init.count", TRUE, e.status = "ok" /\ ok)
     \cup Cl("C14.init.distinct", ok, \A i \in 1..K : \A j \in 1..K : i < j => Xs[i] # Xs[j])
     \cup Cl("C14.init.cond", ok /\ nzero(e.u) /\ nzero(e.v), ~ill)

Room(e, v) == DSgn(v) = 0 \/ DLe(DMul(e.delta, DPow2(-10)), DAbs(v))
DirsC(e) ==
  LET fin == e.status = "ok" /\ Len(e.d) = e.want /\ \A k \in 1..Len(e.d) : Len(e.d[k]) = e.n /\ VIsFin(e.d[k])
  IN Cl("C14.dirs.count", TRUE, fin)
     \cup (IF ~fin THEN {} ELSE
     \* a direction is not the zero vector (only judged if there is room on the free side of every variable)
     Cl("C14.dirs.nonzero", \A i \in 1..e.n : Room(e, e.lo[i]) /\ Room(e, e.hi[i]), \A k \in 1..e.want : DSgn(DSumSq(e.d[k])) > 0)
     \cup Cl("C14.dirs.bounds", TRUE, \A k \in 1..e.want : VInBox(e.d[k], e.lo, e.hi))
     \cup Cl("C14.dirs.length", TRUE, \A k \in 1..e.want : DLe(DSumSq(e.d[k]), Sq(DMul(e.delta, e.op12)))))

Init == l = 0 /\ st = NoRun /\ TallyInit
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l + 1]
           IN CASE e.e = "start" -> st' = [NoRun EXCEPT !.c = l + 1]
                [] e.e = "eval" -> Tally(C.id, l + 1, EvalC(e)) /\ st' = [st EXCEPT !.pts = Append(@, l + 1)]
                [] e.e = "end" -> Tally(C.id, l + 1, EndC(e)) /\ st' = NoRun
                [] e.e = "dirs" -> Tally(e.id, l + 1, DirsC(e)) /\ UNCHANGED st
Spec == Init /\ [][Next]_vars
View == l
Consumed == AllConsumed
=============================================================================
