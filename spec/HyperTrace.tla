----------------------------- MODULE HyperTrace ------------------------------
(* Validates recorded single process hypersearches.                          *)
(* Case: N strategies; v0, fp0 (plain solution), opt, start, limit (quarter  *)
(*  seconds); evs: one per local search, in order:                           *)
(*  [st : number of the strategy in the pool, v, elig, fp, t, h0, h1, thr];  *)
(*  thr : the throttle argument (of the search, of its local searches);      *)
(*  fin : [v, fp, st] (st = 0: the instance's own strategy); strip, h        *)
(*  own : the number of the instance's own strategy in the pool (0: none)    *)
EXTENDS HyperSearch, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, e, best, fp, st, why, h, bad
vars == <<k, e, best, fp, st, why, h, bad>>
C == Cases[k]

Init == /\ k \in DOMAIN Cases /\ e = 0
        /\ best = Cases[k].v0 /\ fp = Cases[k].fp0 /\ st = 0
        /\ h = Cases[k].h
        /\ why = IF Cases[k].v0 >= Cases[k].opt THEN "optimum"
                 ELSE IF Cases[k].N = 0 THEN "all" ELSE "run"
        /\ bad = IF Cases[k].err # "none" THEN {"error"} ELSE {}

Search ==
  /\ e < Len(C.evs)
  /\ LET ev == C.evs[e + 1]
         acc == Accepts(best, ev)
         b2 == IF acc THEN ev.v ELSE best
     IN  /\ best' = b2
         /\ fp' = IF acc THEN ev.fp ELSE fp
         /\ st' = IF acc THEN ev.st ELSE st
         /\ h' = ev.h1
         /\ why' = IF why # "run" THEN why
                   ELSE IF b2 >= C.opt THEN "optimum"
                   ELSE IF ev.t - C.start > C.limit THEN "time"
                   ELSE IF e + 1 >= C.N THEN "all" ELSE "run"
         /\ bad' = bad \cup (CASE why = "run" -> IF ev.st # e + 1 THEN {"order"} ELSE {}
                               [] why = "time" -> {"after-time"}
                               [] why = "optimum" -> {"after-optimum"}
                               [] OTHER -> {"repeated"})
                       \cup (IF C.strip /\ ev.h0 # h THEN {"height"} ELSE {})
                       \cup (IF C.strip /\ ev.h1 > ev.h0 THEN {"height-increased"} ELSE {})
  /\ e' = e + 1 /\ k' = k
End ==
  /\ e = Len(C.evs) /\ C.err = "none" /\ e' = e + 1
  /\ bad' = bad \cup (IF why = "run" THEN {"stopped-early"} ELSE {})
                \cup (IF C.fin.v # best THEN {"final-value"} ELSE {})
                \cup (IF C.fin.fp # fp THEN {"final-solution"} ELSE {})
                \cup (IF C.fin.st = st \/ (st = 0 /\ C.own > 0 /\ C.fin.st = C.own) THEN {} ELSE {"final-strategy"})
                \cup (IF C.strip /\ C.fin.elig = FALSE /\ fp # C.fp0 THEN {"incomplete"} ELSE {})
                \cup (IF C.strip /\ C.fin.h # h THEN {"final-height"} ELSE {})
  /\ UNCHANGED <<k, best, fp, st, why, h>>
Next == Search \/ End
Spec == Init /\ [][Next]_vars

NoError == "error" \notin bad
\* P12
BestKept == bad \cap {"final-value", "final-solution", "final-strategy"} = {}
AllTried == bad \cap {"order", "repeated", "stopped-early"} = {}
GivenThrottle == \A n \in DOMAIN C.evs : C.evs[n].thr = C.thr
\* P15
Heights == bad \cap {"height", "height-increased", "incomplete", "final-height"} = {}
\* P16
Stops == bad \cap {"after-time", "after-optimum", "stopped-early"} = {}
=============================================================================
