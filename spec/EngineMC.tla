------------------------------ MODULE EngineMC -------------------------------
(* All searches of a subclass over sequences of N, values 0..MaxV, with or   *)
(* without the optional methods, any comparison, any limit.  Solutions are   *)
(* numbered; made counts what was asked of the subclass.                     *)
EXTENDS Engine
CONSTANTS N, MaxV, Steps

Defs == [n : 0..N, sense : {"MAX", "MIN"}, opt : {0, MaxV, 99}, cap : 1..(NumSwaps(N) + 1),
         debug : BOOLEAN, initop : BOOLEAN, extra : BOOLEAN,
         cmp : {"default", "margin", "loose", "veto"}, m : {2}, glob : {"default", "exact", "beyond"}]
VARIABLES C, r, made, val, evals
vars == <<C, r, made, val, evals>>

Init == /\ C \in Defs /\ r = StartEngine /\ evals = 0
        /\ made = [x \in {"init", "initop", "acc", "sol", "extra", "debug", "node"} |-> 0]
        /\ val = <<>>
Next == \E m \in Allowed(C, r), v \in 0..MaxV, late \in BOOLEAN :
          /\ (m \notin {"init", "eval"}) => v = 0
          /\ m # "eval" => ~late
          /\ m = "eval" => evals < Steps
          /\ evals' = IF m = "eval" THEN evals + 1 ELSE evals
          \* solution number x belongs to val[x]
          /\ val' = IF m \in {"init", "sol"} THEN Append(val, IF m = "init" THEN v ELSE r.s.best) ELSE val
          /\ r' = Call(C, r, m, v, late, Len(val'))
          /\ LET acc == m = "eval" /\ Accept(C, v, r.s.best)
                 end == (m = "eval" /\ (acc \/ r'.s.why # "run")) \/ (r'.ph = "on" /\ r.ph # "on" /\ r'.s.why = "local")
             IN  made' = [x \in DOMAIN made |->
                           made[x] + IF (x = m) \/ (x = "acc" /\ acc) \/ (x = "node" /\ end)
                                     THEN 1 ELSE 0]
          /\ C' = C
Spec == Init /\ [][Next]_vars

\* when nothing is owed, every accepted candidate was kept and followed up once
Settled == r.pend = {} /\ r.ph = "on" =>
  /\ made["init"] = 1 /\ made["initop"] = (IF C.initop THEN 1 ELSE 0)
  /\ made["sol"] = made["acc"] /\ made["extra"] = (IF C.extra THEN made["acc"] ELSE 0)
  /\ made["debug"] = (IF C.debug THEN made["node"] ELSE 0)
\* what is returned has the value of the best accepted
Kept == r.pend = {} /\ r.ph = "on" => val[r.sol] = r.s.best
Reported == "debug" \in r.pend => /\ r.rep.nn = made["node"] /\ r.rep.best = r.s.best
                                  /\ r.rep.found = (r.pend # {} /\ r.rep.cnt > 0 /\ r.s.cnt = 0)
\* an ordinary comparison never loses
NeverWorse == C.cmp # "loose" /\ r.ph = "on" => ~Better(C.sense, val[1], r.s.best)
=============================================================================
