---------------------------- MODULE ModelInterp ----------------------------
(***************************************************************************)
(* Interpolation models of the residuals (C16).                            *)
(*                                                                         *)
(* State: the base point (absolute), and the linear models r_i(x) =        *)
(* c_i + J_i.(x - base) held by the real Model object, as last observed.   *)
(* A behaviour is a sequence of operations on the object; "fit", "lagr"    *)
(* and "shift" are the operations with an obligation:                      *)
(*   fit    the new model must reproduce the data now in the store         *)
(*          (K <= n+1 points) or be its least-squares fit (K > n+1);       *)
(*   lagr   the Lagrange functions of the points now in the store must be  *)
(*          the dual basis (K <= n+1), or a partition of unity (K > n+1);  *)
(*   shift  the model as a function of the absolute point is unchanged;    *)
(* every other operation leaves the model (as a function) alone, and the   *)
(* assembled quadratic is always g = 2J'r(xopt), H = 2J'J.                 *)
(*                                                                         *)
(* Everything is evaluated exactly; the tolerances are 2^-40 times the     *)
(* condition number of the point set (e.kap, an upper bound from the       *)
(* harness, judged only up to 1e8) times the magnitudes involved.          *)
(***************************************************************************)
EXTENDS Verdict
VARIABLES l, st
vars == <<l, st>>
NoRun == [c |-> 0, base |-> <<>>, cc |-> <<>>, J |-> <<>>]
C == Trace[st.c]
U == DPow2(-40)
U44 == DPow2(-44)

\* value of component i of the model (cc, J) at x relative to the base
Val(cc, J, i, x) == DAdd(cc[i], DDot(J[i], x))
\* sum of |J_i| |x|
Mag(Ji, x) == VSum([j \in 1..Len(x) |-> DMul(DAbs(Ji[j]), DAbs(x[j]))])
\* tolerance for evaluating component i at x, when the model was fitted around xo to data of size rm
TolVal(e, i, x, xo, rm) == DMul(U, DSum3(DMul(e.kap, rm), DAbs(e.cc[i]), DAdd(Mag(e.J[i], x), Mag(e.J[i], xo))))
RMax(e, i) == VMaxAbs([k \in 1..Len(e.r) |-> e.r[k][i]])

Fin(e) == /\ VIsFin(e.cc) /\ \A i \in 1..Len(e.J) : VIsFin(e.J[i])

FitC(e) ==
  LET K == Len(e.x)  n == C.n  m == C.m  xo == e.x[e.kopt]
      good == e.finite /\ DLe(e.kap, DPow2(27))
      judge == good /\ e.exact
  IN Cl("C16.fit.ok", e.finite /\ DLe(e.kap, DPow2(20)), e.ret)
     \cup (IF ~(judge /\ e.ret) THEN {} ELSE
       Cl("C16.fit.finite", TRUE, Fin(e)) \cup
       (IF ~Fin(e) THEN {} ELSE
        IF K <= n + 1 THEN
          Cl(IF K = n + 1 THEN "C16.fit.interp" ELSE IF e.full THEN "C16.fit.growing.full" ELSE "C16.fit.growing", TRUE,
             \A i \in 1..m : \A k \in 1..K : DLe(DAbs(DSub(Val(e.cc, e.J, i, e.x[k]), e.r[k][i])), TolVal(e, i, e.x[k], xo, RMax(e, i))))
        ELSE
          LET res(i, k) == DSub(Val(e.cc, e.J, i, e.x[k]), e.r[k][i])
              tol(i) == DMulInt(VMaxAbs([k \in 1..K |-> TolVal(e, i, e.x[k], xo, RMax(e, i))]), K)
          IN Cl("C16.fit.orth.const", TRUE, \A i \in 1..m : DLe(DAbs(VSum([k \in 1..K |-> res(i, k)])), tol(i)))
             \cup Cl("C16.fit.orth.dirs", TRUE, \A i \in 1..m : \A j \in 1..n :
                     DLe(DAbs(VSum([k \in 1..K |-> DMul(res(i, k), DSub(e.x[k][j], xo[j]))])), DMul(e.sc, tol(i))))))

LagrC(e) ==
  LET K == Len(e.x)  n == C.n  xo == e.x[e.kopt]
      dual == \A k \in 1..K : \A j \in 1..K :
                LET d == VSub(e.x[j], xo)
                    v == DAdd(e.lc[k], DDot(e.lg[k], d))
                IN DLe(DAbs(DSub(v, IF j = k THEN DOne ELSE DZero)), DMul(U, DSum3(e.kap, DAbs(e.lc[k]), Mag(e.lg[k], d))))
      one == /\ DLe(DAbs(DSub(VSum(e.lc), DOne)), DMulInt(DMul(U, e.kap), K))
             /\ \A j \in 1..n : DLe(DMul(e.sc, DAbs(VSum([k \in 1..K |-> e.lg[k][j]]))), DMulInt(DMul(U, e.kap), K))
      \* for regression L_k(y_j) is the hat matrix: symmetric
      hat(k, j) == DAdd(e.lc[k], DDot(e.lg[k], VSub(e.x[j], xo)))
      sym == \A k \in 1..K : \A j \in 1..(k - 1) : DLe(DAbs(DSub(hat(k, j), hat(j, k))), DMulInt(DMul(U, e.kap), K))
  IN IF ~DLe(e.kap, DPow2(27)) THEN {} ELSE
     Cl("C16.lagr.ok", DLe(e.kap, DPow2(20)), e.ret) \cup
     (IF ~e.ret THEN {} ELSE
       Cl("C16.lagr.dual", K <= n + 1, dual) \cup Cl("C16.lagr.one", K >= n + 1, one) \cup Cl("C16.lagr.sym", K > n + 1, sym)
       \cup Cl("C16.lagr.single", e.one > 0, e.one = 0 \/ (e.c1 = e.lc[e.one] /\ e.g1 = e.lg[e.one])
             \/ (DLe(DAbs(DSub(e.c1, e.lc[e.one])), DMul(U, e.kap))
                 /\ \A j \in 1..n : DLe(DMul(e.sc, DAbs(DSub(e.g1[j], e.lg[e.one][j]))), DMul(U, e.kap)))))

\* the function of the absolute point is what it was
SameFun(e) ==
  \A i \in 1..C.m :
    /\ \A j \in 1..C.n : DLe(DAbs(DSub(e.J[i][j], st.J[i][j])), DMul(U44, DAbs(st.J[i][j])))
    /\ \A p \in {st.base, e.base} \cup {e.probe[q] : q \in 1..Len(e.probe)} :
         LET old == Val(st.cc, st.J, i, VSub(p, st.base))
             new == Val(e.cc, e.J, i, VSub(p, e.base))
         IN DLe(DAbs(DSub(old, new)), DMul(U44, DSum3(DAbs(st.cc[i]), Mag(st.J[i], p), DAdd(Mag(st.J[i], st.base), Mag(st.J[i], e.base)))))
Hess(e) ==
  LET rx == [i \in 1..C.m |-> Val(e.cc, e.J, i, e.x[e.kopt])]
      rm(i) == DAdd(DAbs(e.cc[i]), Mag(e.J[i], e.x[e.kopt]))
  IN \A a \in 1..C.n :
     /\ DLe(DAbs(DSub(e.g[a], VSum([i \in 1..C.m |-> DMulInt(DMul(e.J[i][a], rx[i]), 2)]))),
            DMul(U44, VSum([i \in 1..C.m |-> DMul(DAbs(e.J[i][a]), rm(i))])))
     /\ \A b \in 1..C.n :
          DLe(DAbs(DSub(e.H[a][b], VSum([i \in 1..C.m |-> DMulInt(DMul(e.J[i][a], e.J[i][b]), 2)]))),
              DMul(U44, VSum([i \in 1..C.m |-> DMul(DAbs(e.J[i][a]), DAbs(e.J[i][b]))])))
\* gradient and Hessian at the incumbent survive the shift (the incumbent is the same absolute point)
SameQuad(e) ==
  \A a \in 1..C.n :
    /\ DLe(DAbs(DSub(e.g[a], e.g0[a])),
           DMul(U, VSum([i \in 1..C.m |-> DMul(DAbs(e.J[i][a]), DSum3(DAbs(st.cc[i]), Mag(st.J[i], st.base), DAdd(Mag(st.J[i], e.base), DAdd(Mag(e.J[i], e.x[e.kopt]), DAbs(e.cc[i])))))])))
    /\ \A b \in 1..C.n : DLe(DAbs(DSub(e.H[a][b], e.H0[a][b])), DMul(U44, DMax(DAbs(e.H[a][b]), VSum([i \in 1..C.m |-> DMul(DAbs(e.J[i][a]), DAbs(e.J[i][b]))]))))

Clauses(e) ==
  Cl("C16.status", TRUE, e.status = "ok") \cup
  (IF e.status # "ok" THEN {} ELSE
   (IF e.op = "fit" THEN FitC(e) ELSE {}) \cup (IF e.op = "lagr" THEN LagrC(e) ELSE {})
   \cup (IF st.J = <<>> \/ ~Fin(e) \/ ~VIsFin(st.cc) \/ (\E i \in 1..C.m : ~VIsFin(st.J[i])) THEN {}
         ELSE Cl("C16.shift.values", e.op = "shift", SameFun(e))
              \cup Cl("C16.shift.quad", e.op = "shift", SameQuad(e)))
   \cup Cl("C16.full", Fin(e) /\ VIsFin(e.x[e.kopt]), Hess(e)))

New(e) == st' = [NoRun EXCEPT !.c = l + 1]
Op(e) == /\ Tally(C.id, l + 1, Clauses(e))
         /\ st' = IF e.status = "ok" THEN [st EXCEPT !.base = e.base, !.cc = e.cc, !.J = e.J] ELSE st
Init == l = 0 /\ st = NoRun /\ TallyInit
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l + 1] IN IF e.e = "new" THEN New(e) ELSE Op(e)
Spec == Init /\ [][Next]_vars
View == l
Consumed == AllConsumed
=============================================================================
