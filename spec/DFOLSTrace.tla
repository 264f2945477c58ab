----------------------------- MODULE DFOLSTrace -----------------------------
(***************************************************************************)
(* Is a recorded run of the real solver a behaviour of DFOLS?  Every record *)
(* holds the options, the ordinals of the values in the order of the        *)
(* evaluations, and the outcome (flag, reason, number of runs, evaluation   *)
(* number of the answer).  TLC explores DFOLS along that history; a record  *)
(* is accepted if some behaviour ends with exactly that outcome.            *)
(***************************************************************************)
EXTENDS DFOLS, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
TConfigs == {[id |-> i] @@ Recs[i].cfg : i \in 1..Len(Recs)}
TFin == 0..atoi(IOEnv.FIN)
TBad == {INF, NAN}
TBug == IOEnv.BUG
Rec == Recs[s.cfg.id]
OnPath == NF(s) <= Len(Rec.hist) /\ \A i \in 1..NF(s) : s.hist[i] = Rec.hist[i]
Kind(m) == IF m \in {"small", "rhoend", "maxfun", "unsucc", "noise"} THEN m ELSE "other"
Agrees == /\ Done /\ s.hist = Rec.hist
          /\ s.ex.flag = Rec.flag /\ Kind(s.ex.msg) = Rec.msg /\ s.runs = Rec.runs /\ s.res.k = Rec.k
Accept == Agrees => PrintT(<<"ACC", s.cfg.id>>)
=============================================================================
