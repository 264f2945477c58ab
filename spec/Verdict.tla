------------------------------ MODULE Verdict ------------------------------
(* Shared machinery of the specifications that judge recorded behaviours:   *)
(* the trace, named clauses, counting and reporting of verdicts.            *)
EXTENDS Dyadic, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP  == IOEnv.PROP

\* a clause: holds vacuously (and is not counted) unless ant
Cl(name, ant, con) == IF ant THEN {<<name, con>>} ELSE {}

\* report the failed clauses, count all of them
Tally(id, line, cs) ==
  LET bad == {c[1] : c \in {x \in cs : ~x[2]}}
      old == TLCGet(1)
      names == {c[1] : c \in cs}
  IN /\ TLCSet(1, [k \in (DOMAIN old) \cup names |->
                     (IF k \in DOMAIN old THEN old[k] ELSE 0) + (IF k \in names THEN 1 ELSE 0)])
     /\ IF bad = {} THEN TRUE ELSE PrintT(<<"FAIL", id, line, bad>>)
TallyInit == TLCSet(1, [x \in {} |-> 0])
\* every line of the trace was consumed
AllConsumed == /\ TLCGet("stats").diameter = Len(Trace) + 1
               /\ LET c == TLCGet(1) IN \A k \in DOMAIN c : PrintT(<<"CNT", k, c[k]>>)
\* powers of ten as exact upper/lower bounds are passed by the harness as dyadics
Sq(a) == DMul(a, a)
DSum3(a, b, c) == DAdd(a, DAdd(b, c))
=============================================================================
