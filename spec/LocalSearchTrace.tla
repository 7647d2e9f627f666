-------------------------- MODULE LocalSearchTrace ---------------------------
(* Validates recorded local searches against LocalSearch.tla.                *)
(* Case: n, sense, opt (rank of the optimum or a value out of reach),        *)
(*  throttle, maxn, limit, v0 (rank of the initial value), fp0 (identity of  *)
(*  the initial solution), evs : sequence of                                 *)
(*   [d : <<pos, val>> pairs where the sequence differs from the initial     *)
(*    one, v : rank, elig, fp, t : clock at the end of the evaluation,       *)
(*    h : height in force while solving, hn : height of the solution],       *)
(*  start : clock at the start, fin : [v, fp, h], strip, h0, minh (0 none)   *)
EXTENDS LocalSearch, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES k, e, s, bestfp, h, bad
vars == <<k, e, s, bestfp, h, bad>>
C == Cases[k]
B == Budget(C.n, C.throttle, C.maxn)

Init == /\ k \in DOMAIN Cases
        /\ e = 0
        /\ s = StartSearch(Cases[k].n, Cases[k].sense, Cases[k].opt, Cases[k].v0)
        /\ bestfp = Cases[k].fp0
        /\ h = Cases[k].h0
        /\ bad = IF Cases[k].err # "none" THEN {"error"} ELSE {}

\* the place where the element of place p stands first (elements may be repeated)
Lab(p) == IF "lab" \in DOMAIN C THEN C.lab[p] ELSE p
Sparse(q) == {<<p, Lab(q[p])>> : p \in {x \in DOMAIN q : Lab(q[x]) # x}}
SetOf(q) == {q[x] : x \in DOMAIN q}
Max2(a, b) == IF a >= b THEN a ELSE b

\* one recorded evaluation
Event ==
  /\ e < Len(C.evs)
  /\ LET ev  == C.evs[e + 1]
         acc == ev.elig /\ Better(C.sense, ev.v, s.best)
         late == ev.t - C.start >= C.limit
         s2  == Evaluate(s, C.n, C.sense, C.opt, B, ev.v, ev.elig, late)
     IN  /\ s' = IF s.why = "run" THEN s2 ELSE IF acc THEN [s EXCEPT !.best = ev.v] ELSE s
         /\ bestfp' = IF acc THEN ev.fp ELSE bestfp
         /\ h' = IF acc /\ C.strip THEN Max2(ev.hn, C.minh) ELSE h
         /\ bad' = bad \cup
              (CASE s.why = "run" -> IF SetOf(ev.d) # Sparse(Candidate(s)) THEN {"sequence"} ELSE {}
                 [] s.why = "time" -> {"after-time"}
                 [] s.why = "optimum" -> {"after-optimum"}
                 [] OTHER -> {"too-many"})
              \cup (IF C.strip /\ ev.h # h THEN {"height-in-force"} ELSE {})
              \cup (IF C.strip /\ ev.hn > ev.h THEN {"above-height"} ELSE {})
              \* the height falls with every accepted candidate
              \cup (IF acc /\ C.strip /\ Max2(ev.hn, C.minh) > h THEN {"height-increased"} ELSE {})
  /\ e' = e + 1 /\ k' = k

\* the end of the recorded search
End ==
  /\ e = Len(C.evs) /\ C.err = "none"
  /\ e' = e + 1
  /\ bad' = bad \cup (IF s.why = "run" THEN {"stopped-early"} ELSE {})
                \cup (IF C.fin.v # s.best THEN {"final-value"} ELSE {})
                \cup (IF C.fin.fp # bestfp THEN {"final-solution"} ELSE {})
                \cup (IF C.strip /\ C.fin.h # h THEN {"final-height"} ELSE {})
  /\ UNCHANGED <<k, s, bestfp, h>>
Next == Event \/ End
Spec == Init /\ [][Next]_vars

NoError == "error" \notin bad
\* P10
BestReturned == bad \cap {"final-value", "final-solution"} = {}
\* P11
Neighbourhood == bad \cap {"sequence", "too-many", "stopped-early"} = {}
\* P16
Stops == bad \cap {"after-time", "after-optimum", "stopped-early"} = {}
\* P15
Heights == bad \cap {"height-in-force", "above-height", "height-increased", "final-height"} = {}
=============================================================================
