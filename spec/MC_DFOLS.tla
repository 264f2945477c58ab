------------------------------ MODULE MC_DFOLS ------------------------------
(* Instances of DFOLS for TLC. The instance is chosen by the environment variable CASE. *)
EXTENDS DFOLS, IOUtils
Base == [id |-> "none", mode |-> "none", oldrk |-> TRUE, movexk |-> TRUE, ng |-> 1, npt |-> 2, ninit |-> 2, maxfun |-> 5, maxun |-> 1, R |-> 1,
         noise |-> FALSE, auto |-> TRUE, maxfake |-> 2, grownew |-> FALSE, safegeom |-> FALSE, inc |-> 0, maxnpt |-> 2]
MF == atoi(IOEnv.MAXFUN)
B == [Base EXCEPT !.maxfun = MF]
MCConfigs ==
  CASE IOEnv.CASE = "none" -> {B, [B EXCEPT !.id = "n3", !.npt = 3, !.ninit = 3]}
    [] IOEnv.CASE = "grow" -> {[B EXCEPT !.id = "g0", !.npt = 3, !.ninit = 2], [B EXCEPT !.id = "g1", !.npt = 3, !.ninit = 2, !.grownew = TRUE, !.safegeom = TRUE]}
    [] IOEnv.CASE = "soft" -> {[B EXCEPT !.id = "s1", !.mode = "soft"], [B EXCEPT !.id = "s2", !.mode = "soft", !.movexk = FALSE, !.maxun = 2],
                               [B EXCEPT !.id = "s3", !.mode = "soft", !.ng = 2, !.maxun = 2, !.maxfake = 1, !.noise = TRUE],
                               [B EXCEPT !.id = "s4", !.mode = "soft", !.ng = 0, !.inc = 1, !.maxnpt = 3]}
    [] IOEnv.CASE = "hard" -> {[B EXCEPT !.id = "h1", !.mode = "hard"], [B EXCEPT !.id = "h2", !.mode = "hard", !.oldrk = FALSE],
                               [B EXCEPT !.id = "h3", !.mode = "hard", !.maxun = 2], [B EXCEPT !.id = "h4", !.mode = "hard", !.oldrk = FALSE, !.maxun = 2]}
MCFin == 0..atoi(IOEnv.FIN)
MCBad == IF IOEnv.BAD = "1" THEN {INF, NAN} ELSE {}
MCBug == IOEnv.BUG
=============================================================================
