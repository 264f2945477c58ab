------------------------------ MODULE RoundTrip ------------------------------
(***************************************************************************)
(* Saving and reloading results (C20).                                     *)
(*                                                                         *)
(* A result is a record of typed values:                                   *)
(*   none | num (exact number, NaN, infinities) | str | bool |             *)
(*   arr (shape and exact entries) | table (columns, labels, cells)        *)
(* Reload(v) is what a value may become on its way through to_dict, JSON   *)
(* text and from_dict: itself, except that a missing cell of a table may   *)
(* come back as NaN.  An event carries the result before (a), after one    *)
(* trip (b), after a second trip (c) and whether each step worked.         *)
(***************************************************************************)
EXTENDS Verdict
VARIABLE l

Fields == {"x", "resid", "obj", "jacobian", "nf", "nx", "nruns", "flag", "msg", "diagnostic_info", "xmin_eval_num", "jacmin_eval_nums"}

IsNaNCell(c) == c.t = "num" /\ DIsNaN(c.v)
Missing(c) == c.t = "none" \/ IsNaNCell(c)
SameArr(a, b) == a.shape = b.shape /\ a.int = b.int /\ a.v = b.v
SameCell(a, b) == \/ Missing(a) /\ Missing(b)
                  \/ a.t = b.t /\ CASE a.t = "num" -> a.v = b.v
                                    [] a.t \in {"str", "bool"} -> a.s = b.s
                                    [] a.t = "arr" -> SameArr(a, b)
                                    [] OTHER -> FALSE
SameTable(a, b) == /\ a.cols = b.cols
                   /\ a.idx = b.idx
                   /\ Len(a.data) = Len(b.data)
                   /\ \A k \in 1..Len(a.data) : Len(a.data[k]) = Len(b.data[k]) /\ \A i \in 1..Len(a.data[k]) : SameCell(a.data[k][i], b.data[k][i])
Same(a, b) == /\ a.t = b.t
              /\ CASE a.t = "none" -> TRUE
                   [] a.t = "num" -> a.v = b.v /\ a.int = b.int
                   [] a.t \in {"str", "bool"} -> a.s = b.s
                   [] a.t = "arr" -> SameArr(a, b)
                   [] a.t = "table" -> SameTable(a, b)
                   [] OTHER -> FALSE

HasNaN(v) == \/ v.t = "num" /\ ~DIsFin(v.v)
             \/ v.t = "arr" /\ \E i \in 1..Len(v.v) : ~DIsFin(v.v[i])
             \/ v.t = "table" /\ \E k \in 1..Len(v.data) : \E i \in 1..Len(v.data[k]) : v.data[k][i].t = "num" /\ ~DIsFin(v.data[k][i].v)
Special(e) == \E f \in Fields : HasNaN(e.a[f])

Trip(e) ==
  Cl("C20.todict", TRUE, e.todict)
  \cup Cl("C20.dumps", e.todict, e.dumps)
  \cup Cl("C20.strict", e.todict /\ e.replace, e.strict)
  \cup Cl("C20.strict.special", e.todict /\ e.replace /\ Special(e), e.strict)
  \cup Cl("C20.fromdict", e.todict /\ e.dumps, e.fromdict)
  \cup Cl("C20.untouched", TRUE, e.untouched)
  \cup Cl("C20.print", TRUE, e.stra # "" /\ e.strexc = "")
  \cup (IF ~(e.todict /\ e.dumps /\ e.fromdict) THEN {} ELSE
        {<<"C20.field." \o f, Same(e.a[f], e.b[f])>> : f \in Fields}
        \cup Cl("C20.special", Special(e), \A f \in Fields : Same(e.a[f], e.b[f]))
        \cup Cl("C20.table", e.a["diagnostic_info"].t = "table", Same(e.a["diagnostic_info"], e.b["diagnostic_info"]))
        \cup Cl("C20.nojac", e.a["jacobian"].t = "none", e.b["jacobian"].t = "none")
        \cup Cl("C20.str", TRUE, e.stra = e.strb)
        \* a second trip changes nothing
        \cup Cl("C20.again", TRUE, e.again /\ \A f \in Fields : Same(e.b[f], e.c[f]))
        \cup Cl("C20.constants", TRUE, e.consta = e.constb))
Init == l = 0 /\ TallyInit
Next == l < Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l + 1] IN Tally(e.id, l + 1, Trip(e))
Spec == Init /\ [][Next]_l
Consumed == AllConsumed
=============================================================================
