----------------------------- MODULE ModelStore -----------------------------
(***************************************************************************)
(* The interpolation-set store (C17).                                      *)
(*                                                                         *)
(* State: the rows the store should hold - for every slot the absolute     *)
(* point, the sum of all residual samples taken there, their number and    *)
(* the evaluation number - the points saved, the base point, and whether   *)
(* the incumbent has been overwritten by a worse point.  Each operation    *)
(* has one action which computes the next state from the operation and its *)
(* arguments alone.  After every operation the recorded contents of the    *)
(* real store (obs) must agree with the state.                             *)
(***************************************************************************)
EXTENDS Verdict
VARIABLES l, st
vars == <<l, st>>

NoRun == [c |-> 0, rows |-> <<>>, saves |-> <<>>, base |-> <<>>, lax |-> FALSE]
C == Trace[st.c]

Row(x, r, cnt, ev) == [x |-> x, s |-> VScale(DInt(cnt), r), a |-> [i \in 1..Len(r) |-> DMulInt(DAbs(r[i]), cnt)], cnt |-> cnt, ev |-> ev]
Abs(x) == VAdd(st.base, x)

\* value of an objective: NaN counts as worse than everything
NotBetter(a, b) == DIsNaN(a) \/ DLe(b, a)               \* a is not strictly better than b
UpTo(a, b) == DIsNaN(b) \/ DLe(a, DAdd(b, DMul(DPow2(-40), DAbs(b))))      \* a is at least as good as b up to rounding
Top == DPow2(1024)
\* observed objective o agrees with residual r and regulariser value hv
ObjOk(o, r, hv, slack) ==
  IF VHasNaN(r) \/ DIsNaN(hv) THEN DIsNaN(o)
  ELSE IF ~VIsFin(r) THEN o = DPInf
  ELSE LET s == DSumSq(r) IN
       \/ DLe(DMul(s, DAdd(DOne, DPow2(-40))), Top) /\ DIsFin(o)
          /\ DLe(DAbs(DSub(o, DAdd(s, hv))), DAdd(DMul(DPow2(-40), DAdd(s, DAbs(hv))), slack))
       \/ DLe(Top, DMul(s, DAdd(DOne, DPow2(-40)))) /\ (o = DPInf \/ DLe(DMul(Top, DSub(DOne, DPow2(-30))), o))

MeanOk(row, r) ==
  /\ Len(r) = Len(row.s)
  /\ \A i \in 1..Len(r) : IF DIsFin(row.s[i])
                          THEN DIsFin(r[i]) /\ DLe(DAbs(DSub(DMulInt(r[i], row.cnt), row.s[i])), DMul(DPow2(-40), row.a[i]))
                          ELSE ~DIsFin(r[i])
PtOk(x, y) == Len(x) = Len(y) /\ VIsFin(x) /\ \A i \in 1..Len(x) : DLe(DAbs(DSub(x[i], y[i])), C.ux)

\* the rows after the operation
Rows(e) ==
  LET r == st.rows IN
  CASE e.op = "change" -> LET w == Row(Abs(e.x), e.r, 1, e.ev) IN IF e.k > Len(r) THEN Append(r, w) ELSE [r EXCEPT ![e.k] = w]
    [] e.op = "sample" -> [r EXCEPT ![e.k] = [@ EXCEPT !.s = VAdd(@, e.r), !.a = VAdd(@, [i \in 1..Len(e.r) |-> DAbs(e.r[i])]), !.cnt = @ + 1]]
    [] e.op = "add"    -> Append(r, Row(Abs(e.x), e.r, 1, e.ev))
    [] e.op = "swap"   -> [k \in 1..Len(r) |-> IF k = e.k THEN r[e.k2] ELSE IF k = e.k2 THEN r[e.k] ELSE r[k]]
    [] OTHER -> r
Base(e) == IF e.op = "shift" THEN VAdd(st.base, e.x) ELSE st.base
Saves(e) == IF e.op = "save" THEN Append(st.saves, [x |-> e.x, r |-> e.r, obj |-> e.sobj, ns |-> e.ns, ev |-> e.ev]) ELSE st.saves

Best(o) == \A k \in 1..Len(o.obj) : NotBetter(o.obj[k], o.obj[o.kopt])

\* the final-result query: f is its answer, o the store
FinalC(f, o, saves) ==
  LET k == o.kopt
      fromInc == f.ev = o.ev[k] /\ f.ns = o.ns[k] /\ PtOk(f.x, o.x[k]) /\ f.r = o.r[k] /\ f.obj = o.obj[k]
      fromSave(s) == f.ev = s.ev /\ f.ns = s.ns /\ PtOk(f.x, s.x) /\ f.r = s.r /\ (f.obj = s.obj \/ (UpTo(f.obj, s.obj) /\ UpTo(s.obj, f.obj)))
  IN Cl("C17.final.source", TRUE, fromInc \/ \E i \in 1..Len(saves) : fromSave(saves[i]))
     \cup Cl("C17.final.better", TRUE, UpTo(f.obj, o.obj[k]) /\ \A i \in 1..Len(saves) : UpTo(f.obj, saves[i].obj))
     \cup Cl("C17.final.notnan", DIsFin(o.obj[k]) \/ \E i \in 1..Len(saves) : DIsFin(saves[i].obj), DIsFin(f.obj))

Clauses(e, rows, saves, lax) ==
  LET o == e.obs
      K == Len(rows)
      sized == e.status = "ok" /\ o.npt = K /\ Len(o.x) = K /\ Len(o.r) = K /\ Len(o.obj) = K /\ Len(o.ns) = K /\ Len(o.ev) = K
               /\ o.kopt \in 1..K
  IN Cl("C17.size", TRUE, sized)
     \cup (IF ~sized THEN {} ELSE
     Cl("C17.point", TRUE, \A k \in 1..K : PtOk(o.x[k], rows[k].x))
     \cup Cl("C17.mean", TRUE, \A k \in 1..K : MeanOk(rows[k], o.r[k]))
     \cup Cl("C17.count", TRUE, \A k \in 1..K : o.ns[k] = rows[k].cnt)
     \cup Cl("C17.evalnum", TRUE, \A k \in 1..K : o.ev[k] = rows[k].ev)
     \cup Cl("C17.obj", TRUE, \A k \in 1..K : ObjOk(o.obj[k], o.r[k], o.hv[k], C.hslack))
     \cup Cl("C17.kopt", ~lax, Best(o))
     \cup FinalC(e.fin, o, saves))

\* the incumbent was overwritten by a worse point (or updating it was forbidden) and has not been the best since
Lax(e) ==
  LET o == e.obs
      prev == Trace[l].obs
      hit == e.op = "change" /\ (e.k = prev.kopt \/ ~e.allow)
  IN (st.lax \/ hit)
LaxAfter(e) == IF e.status = "ok" /\ e.obs.kopt \in 1..Len(e.obs.obj) /\ Best(e.obs) THEN FALSE ELSE Lax(e)

New(e) == st' = [NoRun EXCEPT !.c = l + 1, !.base = e.x, !.rows = <<Row(e.x, e.r, e.ns, e.ev)>>]
Op(e) == LET rows == Rows(e)  saves == Saves(e)
         IN /\ Tally(C.id, l + 1, Clauses(e, rows, saves, Lax(e)))
            /\ st' = [st EXCEPT !.rows = rows, !.saves = saves, !.base = Base(e), !.lax = LaxAfter(e)]
Init == l = 0 /\ st = NoRun /\ TallyInit
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l + 1] IN IF e.e = "new" THEN New(e) ELSE Op(e)
Spec == Init /\ [][Next]_vars
View == l
Consumed == AllConsumed
=============================================================================
