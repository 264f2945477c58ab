-------------------------------- MODULE Repro --------------------------------
(***************************************************************************)
(* Reproducibility and caller data (C19), by self composition: the same    *)
(* call is run several times (other state of the global random generator,  *)
(* other history in the process, another process with another hash seed),  *)
(* and the machine below follows a later run along the first one.          *)
(*                                                                         *)
(*   begin  starts run k of a call                                         *)
(*   eval   one residual call: x (the exact bits, as text), and whether    *)
(*          the caller's data still have their bits                        *)
(*   end    the outcome, every field of the result as exact text           *)
(*                                                                         *)
(* A deterministic solver is a function from calls to behaviours: the      *)
(* reference behaviour is that function's value, any later behaviour of    *)
(* the same call has to be equal to it at every position.                  *)
(***************************************************************************)
EXTENDS Verdict
VARIABLES l, st
vars == <<l, st>>

NoCall == [id |-> "", ref |-> 0, len |-> 0, k |-> 0, pos |-> 0, random |-> FALSE, why |-> ""]
\* the i-th evaluation of the reference run (its events are consecutive, after its begin)
Ref(i) == Trace[st.ref + i]
RefEnd == Trace[st.ref + st.len + 1]
First == st.k = 1
\* which clause a departure violates: by what differed between the runs
Rng == st.why = "rng"
Judged == ~First /\ ~st.random

Begin(e) ==
  st' = IF e.k = 1 THEN [NoCall EXCEPT !.id = e.id, !.ref = l + 1, !.k = 1, !.random = e.random, !.why = e.why]
        ELSE [st EXCEPT !.k = e.k, !.pos = 0, !.why = e.why]

Eval(e) ==
  /\ Tally(st.id, l + 1,
        Cl("C19.sequence." \o st.why, Judged, st.pos < st.len /\ Ref(st.pos + 1).x = e.x)
        \* the recorder itself: equal points were given equal residuals
        \cup Cl("C19.harness", Judged /\ st.pos < st.len /\ Ref(st.pos + 1).x = e.x, Ref(st.pos + 1).r = e.r)
        \cup Cl("C19.x0", TRUE, "x0" \notin {e.chg[i] : i \in 1..Len(e.chg)})
        \cup Cl("C19.bounds", TRUE, {"lo", "hi"} \cap {e.chg[i] : i \in 1..Len(e.chg)} = {})
        \cup Cl("C19.params", TRUE, "params" \notin {e.chg[i] : i \in 1..Len(e.chg)}))
  /\ st' = IF First THEN [st EXCEPT !.len = @ + 1] ELSE [st EXCEPT !.pos = @ + 1]

End(e) ==
  /\ Tally(st.id, l + 1,
        Cl("C19.length." \o st.why, Judged, st.pos = st.len)
        \cup Cl("C19.outcome." \o st.why, Judged, RefEnd.status = e.status /\ RefEnd.exc = e.exc)
        \cup Cl("C19.result." \o st.why, Judged /\ RefEnd.status = "ok" /\ e.status = "ok",
                DOMAIN RefEnd.res = DOMAIN e.res /\ \A f \in DOMAIN e.res : RefEnd.res[f] = e.res[f])
        \cup Cl("C19.x0.end", TRUE, "x0" \notin {e.chg[i] : i \in 1..Len(e.chg)})
        \cup Cl("C19.bounds.end", TRUE, {"lo", "hi"} \cap {e.chg[i] : i \in 1..Len(e.chg)} = {})
        \cup Cl("C19.params.end", TRUE, "params" \notin {e.chg[i] : i \in 1..Len(e.chg)}))
  /\ UNCHANGED st

Init == l = 0 /\ st = NoCall /\ TallyInit
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l + 1]
           IN CASE e.e = "begin" -> Begin(e)
                [] e.e = "eval"  -> Eval(e)
                [] e.e = "end"   -> End(e)
Spec == Init /\ [][Next]_vars
View == l
Consumed == AllConsumed
=============================================================================
