------------------------------- MODULE DFOLS -------------------------------
(***************************************************************************)
(* The run control of dfols.solve as a state machine.                      *)
(*                                                                         *)
(* What is abstract: the geometry.  Objective values are ordinals          *)
(* (0 = at or below the stopping threshold, 1..K finite, INF, NAN); which  *)
(* interpolation point a step replaces, whether a linear system is         *)
(* singular, whether a predicted reduction is negative, whether the step   *)
(* is short, and so on, are nondeterministic choices.  What is concrete:   *)
(* every evaluation, the model's slots, the incumbent, the saved point,    *)
(* the run counters, the radius level, every exit and restart of the       *)
(* solver (solver.solve, solver.solve_main, controller.Controller).        *)
(*                                                                         *)
(* Checked exhaustively by TLC: C02, C03, C04, C08, C10, C17 and C18 in    *)
(* their run-control form, and termination.  Bound to the code in two      *)
(* ways: the words of values TLC finds on its terminal states are replayed *)
(* into the real solver (and judged by RunTrace), and recorded runs of the *)
(* real solver are checked to be behaviours of this machine (DFOLSTrace).  *)
(*                                                                         *)
(* BUG switches on a known wrong variant (non-vacuity of the invariants).  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Configs,  \* set of option records
          FinVals,  \* finite ordinals, e.g. 0..3
          BadVals,  \* subset of {INF, NAN}
          BUG

INF == 50
NAN == 99
Vals == FinVals \cup BadVals
Fin(v) == v < INF
\* strictly better (anything is better than NaN), as model.is_better
Better(a, b) == (a # NAN /\ b # NAN /\ a < b) \/ (b = NAN /\ a # NAN)
Lt(a, b) == a # NAN /\ b # NAN /\ a < b

VARIABLE s

None == [v |-> -1, k |-> 0]
NoExit == [flag |-> 99, msg |-> "none"]

\* exit flags of controller.py
SUCCESS == 0
MAXFUNW == 1
SLOW == 2
FALSESUCC == 3
AUTO == 4
TRINCW == 5
TRINC == -2
LINALG == -3
EVALERR == -4

NF(t) == Len(t.hist)
NPts(t) == Len(t.pts)
Opt(t) == t.pts[t.kopt]
Growing(t) == NPts(t) < t.npt

\* ------------------------------------------------------------ bookkeeping
Ev(t, v) == [t EXCEPT !.hist = Append(@, v)]           \* one more evaluation (point number NF)
SavePt(t, p) == IF t.save.v = -1 \/ ~Better(t.save.v, p.v) THEN [t EXCEPT !.save = p] ELSE t
\* put point p into slot i (i = NPts + 1: a new slot)
Put(t, i, p) ==
  LET q == IF i = NPts(t) + 1 THEN Append(t.pts, p) ELSE [t.pts EXCEPT ![i] = p]
  IN [t EXCEPT !.pts = q, !.kopt = IF Better(p.v, q[t.kopt].v) THEN i ELSE t.kopt]
Final(t) == IF t.save.v = -1 \/ ~Better(t.save.v, Opt(t).v) THEN Opt(t) ELSE t.save

Exit(t, f, m) == [t EXCEPT !.ex = [flag |-> f, msg |-> m], !.runs = @ + 1, !.pc = "endrun"]
Last(t) == [v |-> t.hist[NF(t)], k |-> NF(t)]
ExitSave(t, f, m) == Exit(IF BUG = "nosave" THEN t ELSE SavePt(t, Last(t)), f, m)

\* -------------------------------------------------------------- restarts
Seqs(S, n) == {q \in [1..n -> S] : \A i, j \in 1..n : i # j => q[i] # q[j]}
Min2(a, b) == IF a < b THEN a ELSE b
\* slots moved by a soft restart, in the order they are moved
Moves(t) ==
  LET others == (1..NPts(t)) \ {t.kopt}
      c == t.cfg
  IN IF c.ng = 0 THEN {<<>>}
     ELSE IF c.movexk THEN {<<t.kopt>> \o q : q \in Seqs(others, Min2(c.ng, NPts(t)) - 1)}
     ELSE Seqs(others, Min2(c.ng, NPts(t) - 1))

SoftRestart(t) ==
  LET succ == Lt(Opt(t).v, t.lastF)
      ls == IF succ THEN t.runs ELSE t.lastS
      t1 == [t EXCEPT !.lastS = ls, !.lastF = Opt(t).v]
      unsucc == t.runs - ls >= t.cfg.maxun
  IN IF unsucc \/ NF(t) >= t.cfg.maxfun
     THEN {Exit(t1, IF unsucc THEN SUCCESS ELSE MAXFUNW, IF unsucc THEN "unsucc" ELSE "maxfun")}
     ELSE LET t2 == IF BUG = "restartnosave" THEN t1 ELSE SavePt(t1, Opt(t1))
          IN {[t2 EXCEPT !.rho = t.cfg.R, !.pc = "soft", !.todo = q, !.add = t.cfg.inc] : q \in Moves(t2)}

Able(x) == IF x.flag \in {TRINC, TRINCW, LINALG, SLOW, AUTO, EVALERR} THEN TRUE
           ELSE IF x.flag = MAXFUNW THEN FALSE ELSE x.msg # "small"
\* an exit which becomes a soft restart if they are in use
Stop(t, f, m) == IF t.cfg.mode = "soft" THEN SoftRestart(t) ELSE {Exit(t, f, m)}
StopSave(t, f, m) == Stop(SavePt(t, Last(t)), f, m)

\* ------------------------------------------------- one evaluated new point
\* the three ways an evaluation of a point which is to be put into a slot can go: no budget, small, stored
MaxfunExit(t) == Exit(t, MAXFUNW, "maxfun")
Budget(t) == IF BUG = "budget" THEN NF(t) > t.cfg.maxfun ELSE NF(t) >= t.cfg.maxfun
\* results of evaluating and storing in slot i; Cont(t) is what happens next
EvalPut(t, i, Cont(_)) ==
  IF Budget(t) THEN {MaxfunExit(t)}
  ELSE UNION {LET t1 == Ev(t, v)
              IN IF v = 0 THEN {ExitSave(t1, SUCCESS, "small")} ELSE Cont(Put(t1, i, Last(t1))) : v \in Vals}
At(t, p) == [t EXCEPT !.pc = p]

\* ================================================================ actions
NewRun(t) == [t EXCEPT !.pts = <<>>, !.kopt = 1, !.save = None, !.rho = t.cfg.R, !.fakes = 0, !.todo = <<>>, !.lastS = 0,
                       !.npt = t.npt, !.add = 0]

\* evaluation of the starting point of a run
StartRun ==
  /\ s.pc = "x0"
  /\ \E v \in Vals :
       LET t1 == Ev(s, v)
           t2 == [t1 EXCEPT !.pts = <<Last(t1)>>, !.lastF = v]
       IN s' = IF v = 0 THEN Exit(t2, SUCCESS, "small") ELSE At(t2, "init")

\* the other initial points
InitPoint ==
  /\ s.pc = "init"
  /\ IF NPts(s) >= s.cfg.ninit
     THEN s' = At(s, "iter")
     ELSE s' \in EvalPut(s, NPts(s) + 1, LAMBDA t : {At(t, "init")})

AnyBad(t) == \E i \in 1..NPts(t) : ~Fin(t.pts[i].v)

\* all values within the noise level
NoiseQuit == /\ s.pc = "iter" /\ s.cfg.noise /\ ~Growing(s)
             /\ s' \in Stop(s, SUCCESS, "noise")

\* no model: singular system, or NaN/inf in the stored residuals
InterpFail == /\ s.pc = "iter"
              /\ s' \in Stop(s, LINALG, "linalg")

Slots(t, skip) == (1..NPts(t)) \ (IF skip THEN {t.kopt} ELSE {})

\* after a step with 0 < ratio (and room for a geometry step if low)
AfterGood(t, low) ==
  LET wasfake == t.save.v # -1 /\ Lt(t.save.v, Opt(t).v)
      fk == IF wasfake THEN t.fakes + 1 ELSE 0
      t1 == [t EXCEPT !.fakes = fk]
  IN IF fk >= t.cfg.maxfake THEN {Exit(t1, FALSESUCC, "fake")}
     ELSE {At(t1, IF low THEN "geomgood" ELSE "iter")}

\* slot choices of a trust-region step while growing / with a full set
TRSlots(t, skip) == IF Growing(t) THEN (IF t.cfg.grownew THEN Slots(t, skip) ELSE {NPts(t) + 1}) ELSE Slots(t, skip)

TRGood(t, growing, low) ==   \* t: after the evaluation; strictly better than the incumbent
  \* re-choosing the point to replace may fail
  StopSave(t, LINALG, "linalg")
  \cup UNION {LET t1 == Put(t, i, Last(t))
              IN (IF growing THEN {} ELSE Stop(t1, SLOW, "slow"))
                 \cup UNION {IF growing /\ x.pc # "endrun" THEN {At(x, IF t.cfg.grownew THEN "newdir" ELSE "iter")} ELSE {x} : x \in AfterGood(t1, low)}
              : i \in TRSlots(t, FALSE)}
TRBad(t, growing) ==
  UNION {LET t1 == Put(t, i, Last(t))
         IN IF growing THEN {At(t1, IF t.cfg.grownew THEN "newdir" ELSE "iter")}
            ELSE (IF t.cfg.auto /\ t.cfg.mode # "none" THEN Stop(t1, AUTO, "auto") ELSE {}) \cup {At(t1, "geombad")}
         : i \in TRSlots(t, TRUE)}

\* a trust-region step: evaluate, then act on the outcome
TRStep ==
  /\ s.pc = "iter" /\ ~AnyBad(s)
  /\ IF Budget(s) THEN s' = MaxfunExit(s)
     ELSE \E v \in Vals :
        LET t == Ev(s, v)
            g == Growing(s)
        IN IF v = NAN THEN s' = Exit(t, EVALERR, "nan")
           ELSE IF v = 0 THEN s' = ExitSave(t, SUCCESS, "small")
           ELSE \/ s' \in StopSave(t, TRINC, "trinc")      \* negative predicted reduction
                \/ Lt(v, Opt(s).v) /\ \E low \in BOOLEAN : s' \in TRGood(t, g, low)
                \/ ~Lt(v, Opt(s).v) /\ s' \in TRBad(t, g)

\* a new direction while growing
NewDir ==
  /\ s.pc = "newdir"
  /\ IF Growing(s) THEN s' \in EvalPut(s, NPts(s) + 1, LAMBDA t : {At(t, "iter")})
     ELSE \E i \in Slots(s, TRUE) : s' \in EvalPut(s, i, LAMBDA t : {At(t, "iter")})
\* safety step while growing (after an optional geometry step)
SafetyGrow ==
  /\ s.pc = "iter" /\ ~AnyBad(s) /\ Growing(s)
  /\ \/ s' = At(s, "newdir")
     \/ s.cfg.safegeom /\ \E i \in Slots(s, TRUE) : s' \in EvalPut(s, i, LAMBDA t : {At(t, "newdir")}) \/ s' \in Stop(s, LINALG, "linalg")

\* a geometry-improving step at a slot other than the incumbent
Geometry ==
  /\ s.pc \in {"geomgood", "geombad"} \/ (s.pc = "iter" /\ ~AnyBad(s) /\ ~Growing(s))
  /\ \/ \E i \in Slots(s, TRUE) : s' \in EvalPut(s, i, LAMBDA t : {At(t, "iter")})
     \/ s' \in Stop(s, LINALG, "linalg")
NoGeometry ==
  /\ s.pc \in {"geomgood", "geombad"}
  /\ s' = At(s, "iter")

\* the end of the line for this rho: reduce it, or stop at rhoend
ReduceRho ==
  /\ s.pc = "geombad" \/ (s.pc = "iter" /\ ~AnyBad(s) /\ ~Growing(s))
  /\ s.rho > 0
  /\ s' = [s EXCEPT !.rho = @ - 1, !.pc = "iter"]
RhoEndTR ==
  /\ s.pc = "geombad" /\ (s.rho = 0 \/ BUG = "rhoend")
  /\ s' \in Stop(s, SUCCESS, "rhoend")
\* from a safety step: the last step is still evaluated (unless restarting)
RhoEndSafety ==
  /\ s.pc = "iter" /\ ~AnyBad(s) /\ ~Growing(s) /\ s.rho = 0
  /\ IF s.cfg.mode = "soft" THEN s' \in SoftRestart(s)
     ELSE IF Budget(s) THEN s' = MaxfunExit(s)
     ELSE \E v \in Vals : LET t == Ev(s, v) IN s' = ExitSave(t, SUCCESS, IF v = 0 THEN "small" ELSE "rhoend")

\* a soft restart moves its points one by one, adds points if asked, and starts a new run
SoftMove ==
  /\ s.pc = "soft"
  /\ IF s.todo # <<>>
     THEN \/ s' \in EvalPut(s, Head(s.todo), LAMBDA t : {[t EXCEPT !.todo = Tail(@)]})
          \/ s' = Exit(s, LINALG, "linalg")
     ELSE IF s.add > 0 /\ s.npt < s.cfg.maxnpt /\ NPts(s) = s.npt
     THEN s' \in EvalPut(s, NPts(s) + 1, LAMBDA t : {[t EXCEPT !.npt = @ + 1, !.add = @ - 1]})
     ELSE s' = [s EXCEPT !.pc = "iter", !.runs = @ + 1, !.restarts = @ + 1, !.todo = <<>>, !.add = 0]

\* a run is over: keep the better result, then a hard restart or the end
EndRun ==
  /\ s.pc = "endrun"
  /\ LET r == Final(s)
         first == s.res.v = -1
         imp == first \/ (IF BUG = "hardnan" THEN ~Lt(s.res.v, r.v) ELSE Lt(r.v, s.res.v) \/ (s.res.v = NAN /\ r.v # NAN))
         ls == IF imp THEN s.runs ELSE s.resS
         t == [s EXCEPT !.res = IF imp THEN r ELSE @, !.resS = ls]
         hard == s.cfg.mode = "hard"
         again == hard /\ NF(s) < s.cfg.maxfun /\ Able(s.ex) /\ s.runs - ls < s.cfg.maxun
         x1 == IF hard /\ Able(s.ex) /\ s.runs - ls >= s.cfg.maxun THEN [flag |-> SUCCESS, msg |-> "unsucc"] ELSE s.ex
         x2 == IF x1.flag = AUTO THEN [flag |-> MAXFUNW, msg |-> "maxfun"] ELSE x1
         x3 == IF x2.flag = SUCCESS /\ ~Fin(t.res.v) /\ BUG # "nonfinite" THEN [flag |-> EVALERR, msg |-> x2.msg] ELSE x2
     IN IF again
        THEN LET u == NewRun(t)
             IN s' = IF s.cfg.oldrk THEN [u EXCEPT !.pts = <<t.res>>, !.pc = "init", !.restarts = @ + 1, !.lastF = t.res.v]
                     ELSE [u EXCEPT !.pc = "x0", !.restarts = @ + 1]
        ELSE s' = [t EXCEPT !.ex = x3, !.pc = "done"]

Init == \E c \in Configs :
  s = [cfg |-> c, pc |-> "x0", hist |-> <<>>, runs |-> 0, pts |-> <<>>, kopt |-> 1, save |-> None, rho |-> c.R, lastS |-> 0,
       lastF |-> NAN, res |-> None, resS |-> 0, ex |-> NoExit, todo |-> <<>>, fakes |-> 0, restarts |-> 0, npt |-> c.npt, add |-> 0]

Next == \/ StartRun \/ InitPoint \/ NoiseQuit \/ InterpFail \/ TRStep \/ NewDir \/ SafetyGrow \/ Geometry \/ NoGeometry
        \/ ReduceRho \/ RhoEndTR \/ RhoEndSafety \/ SoftMove \/ EndRun

Spec == Init /\ [][Next]_s /\ WF_s(Next)

\* ============================================================= properties
BestOf(h) == LET F == {h[i] : i \in 1..Len(h)}
                 N == {v \in F : v # NAN}
             IN IF N = {} THEN NAN ELSE CHOOSE v \in N : \A w \in N : v <= w
Done == s.pc = "done"

C02_Budget == NF(s) <= s.cfg.maxfun
C03_Evaluated == Done => s.res.k \in 1..NF(s) /\ s.hist[s.res.k] = s.res.v
C03_Slots == /\ \A i \in 1..NPts(s) : s.pts[i].k \in 1..NF(s) /\ s.hist[s.pts[i].k] = s.pts[i].v
             /\ s.save.v # -1 => s.hist[s.save.k] = s.save.v
C04_Best == Done => s.res.v = BestOf(s.hist)
C08_Finite == Done => ((\E i \in 1..NF(s) : Fin(s.hist[i])) => Fin(s.res.v))
C10_Small == Done /\ s.ex.flag = SUCCESS /\ s.ex.msg = "small" => s.res.v = 0
C10_Rhoend == Done /\ s.ex.msg = "rhoend" => s.rho = 0
C10_Maxfun == Done /\ s.ex.flag = MAXFUNW => NF(s) = s.cfg.maxfun
C10_Unsucc == Done /\ s.ex.msg = "unsucc" => s.runs >= s.cfg.maxun
\* a soft restart which is cut off by the budget or a small value is not counted as a run
C10_Runs == Done => s.runs = s.restarts + 1
C10_Success == Done /\ s.ex.flag = SUCCESS => Fin(s.res.v)
C10_Flag == Done => s.ex.flag \in {0, 1, 2, 3, 5, -2, -3, -4}
\* the incumbent is a smallest stored value, unless it was itself overwritten (only soft restarts may do that)
C17_Incumbent == (s.cfg.mode # "soft" \/ ~s.cfg.movexk \/ s.restarts = 0) /\ s.pc \notin {"soft", "endrun", "done"} =>
                   \A i \in 1..NPts(s) : ~Lt(s.pts[i].v, s.pts[s.kopt].v)
C18_Rho == s.rho \in 0..s.cfg.R
C18_Npt == NPts(s) <= s.npt /\ (s.npt <= s.cfg.npt \/ s.npt <= s.cfg.maxnpt)
\* within a run rho never increases and the incumbent never gets worse (action properties)
SameRun == s'.runs = s.runs /\ s'.restarts = s.restarts /\ s.pc \notin {"soft", "x0", "endrun"} /\ s'.pc # "soft"
C18_RhoMono == [][SameRun => s'.rho <= s.rho]_s
C18_FkMono == [][SameRun /\ NPts(s) > 0 => ~Better(Opt(s).v, Opt(s').v)]_s
Terminates == <>Done

\* terminal behaviours, for replay into the implementation
Emit == Done => PrintT(<<"T", s.cfg.id, s.hist>>)
=============================================================================
