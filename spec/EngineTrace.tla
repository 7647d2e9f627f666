----------------------------- MODULE EngineTrace -----------------------------
(* Validates the recorded calls of the methods of subclasses of              *)
(* AbstractLocalSearch against Engine.tla.                                   *)
(* Case: def (C of Engine), limit, start, evs : sequence of                  *)
(*  [m : method, d : <<pos, val>> pairs where the sequence differs from the  *)
(*   initial one, v : value, t : clock at the end of the call, sol : number  *)
(*   of the solution handed over, rep : report],                             *)
(*  ret : number of the solution returned, raised : a method raised at its   *)
(*  last call (the exception reached the caller unchanged), err              *)
EXTENDS Engine, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES k, e, r, bad
vars == <<k, e, r, bad>>
T == Cases[k]
C == T.def

Init == /\ k \in DOMAIN Cases
        /\ e = 0
        /\ r = StartEngine
        /\ bad = IF Cases[k].err # "none" THEN {"error"} ELSE {}

\* the place where the element of place p stands first (elements may be repeated)
Lab(p) == IF "lab" \in DOMAIN T THEN T.lab[p] ELSE p
Sparse(q) == {<<p, Lab(q[p])>> : p \in {x \in DOMAIN q : Lab(q[x]) # x}}
SetOf(q) == {q[x] : x \in DOMAIN q}

Event ==
  /\ e < Len(T.evs) /\ bad = {}
  /\ LET ev == T.evs[e + 1]
         ok == ev.m \in Allowed(C, r)
     IN  /\ r' = IF ok THEN Call(C, r, ev.m, ev.v, ev.t - T.start >= T.limit, ev.sol) ELSE r
         /\ bad' = IF ~ok THEN {IF ev.m = "eval" THEN "candidate" ELSE "call"}
                   ELSE IF ev.m = "eval" /\ SetOf(ev.d) # Sparse(Candidate(r.s)) THEN {"candidate"}
                   ELSE IF ev.m = "debug" /\ ev.rep # r.rep THEN {"report"} ELSE {}
  /\ e' = e + 1 /\ k' = k
End ==
  /\ e = Len(T.evs) /\ bad = {}
  /\ e' = e + 1
  /\ bad' = IF T.raised THEN {}
            ELSE (IF Ended(C, r) THEN {} ELSE {"ended-early"})
                 \cup (IF T.ret # r.sol THEN {"returned"} ELSE {})
  /\ UNCHANGED <<k, r>>
Next == Event \/ End
Spec == Init /\ [][Next]_vars

NoError == "error" \notin bad
\* P27
Calls == bad \cap {"call", "ended-early"} = {}
Decides == "candidate" \notin bad
Returned == "returned" \notin bad
Reports == "report" \notin bad
=============================================================================
