-------------------------------- MODULE Sets --------------------------------
(* Convex sets in closed form: balls, half-spaces, hyperplanes, boxes.      *)
EXTENDS Dyadic
Excess(v, lo, hi) == IF DLt(v, lo) THEN DSub(lo, v) ELSE IF DLt(hi, v) THEN DSub(v, hi) ELSE DZero
\* the distance of x from the set is at most tau
Within(S, x, tau) ==
  CASE S.kind = "box" -> DLe(DSumSq([i \in 1..Len(x) |-> Excess(x[i], S.lo[i], S.hi[i])]), DMul(tau, tau))
    [] S.kind = "ball" -> LET r == DAdd(S.r, tau) IN DLe(VDist2(x, S.c), DMul(r, r))
    [] S.kind = "half" -> LET v == DSub(DDot(S.a, x), S.b) IN DSgn(v) <= 0 \/ DLe(DMul(v, v), DMul(DMul(tau, tau), DSumSq(S.a)))
    [] S.kind = "plane" -> LET v == DSub(DDot(S.a, x), S.b) IN DLe(DMul(v, v), DMul(DMul(tau, tau), DSumSq(S.a)))
=============================================================================
