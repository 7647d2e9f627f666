----------------------------- MODULE SolvingMC -------------------------------
(* What solve, local_search and hypersearch do to one strip packing instance *)
(* while they run, one construction after the other, and what an exception   *)
(* at any moment between or during constructions leaves behind.              *)
(* A construction with the height h yields any result [top, full, v]:        *)
(* its height, whether all items were placed, and its value.  With all items *)
(* placed the value only depends on the height.                              *)
(* Restores: hypersearch gives the instance its strategy back (not so before *)
(* fix 0d569aa: StrategyKept then fails, which P25 checks).                  *)
EXTENDS Integers, FiniteSets
CONSTANTS MaxH, MaxC, MaxS, Restores
Strats == 0..MaxS        \* 0: the one the user set
Results(h) == {r \in [top : 0..h, full : BOOLEAN, v : 0..MaxH] :
                 r.full => (r.top >= 1 /\ r.v = (MaxH + 1) - r.top)}
None == [top |-> 0, full |-> FALSE, v |-> -1]
Mx(a, b) == IF a > b THEN a ELSE b

VARIABLES h, minh,     \* heights of the instance (minh = 0: none)
          strat,       \* its potential points strategy
          sol,         \* its solution
          op,          \* idle / solve / ls / hs
          pc,          \* what comes next
          kept,        \* best candidate of the running local search
          cnt,         \* candidates evaluated in this neighbourhood
          best, at,    \* best of the hypersearch; the strategy it is at
          cut          \* the last operation was interrupted
vars == <<h, minh, strat, sol, op, pc, kept, cnt, best, at, cut>>

Init == /\ h = MaxH /\ minh \in 0..2 /\ strat = 0 /\ sol = None
        /\ op = "idle" /\ pc = "-" /\ kept = None /\ cnt = 0 /\ best = None /\ at = 0
        /\ cut = FALSE

Begin == /\ op = "idle" /\ op' \in {"solve", "ls", "hs"}
         /\ pc' = CASE op' = "solve" -> "plain" [] op' = "ls" -> "first" [] OTHER -> "start"
         /\ cut' = FALSE
         /\ UNCHANGED <<h, minh, strat, sol, kept, cnt, best, at>>
Construct(next) == \E r \in Results(h) : sol' = r /\ pc' = next
Plain == /\ pc = "plain" /\ Construct("-") /\ op' = "idle"
         /\ UNCHANGED <<h, minh, strat, kept, cnt, best, at, cut>>
\* hypersearch: plain solution, then a local search per strategy
Start == /\ pc = "start" /\ Construct("next") /\ best' = sol' /\ at' = 0
         /\ UNCHANGED <<h, minh, strat, op, kept, cnt, cut>>
Eligible(r) == minh # 0 \/ r.full
NextStrategy == /\ pc = "next" /\ at < MaxS
                /\ at' = at + 1 /\ strat' = at + 1 /\ pc' = "first"
                /\ UNCHANGED <<h, minh, sol, op, kept, cnt, best, cut>>
Forget == kept' = None /\ cnt' = 0 /\ best' = None /\ at' = 0
Leave == strat' = IF Restores THEN 0 ELSE strat
Finish == /\ pc = "next"   \* none left, or out of time
          /\ sol' = best /\ op' = "idle" /\ pc' = "-" /\ Leave /\ Forget
          /\ UNCHANGED <<h, minh, cut>>
\* local search
First == /\ pc = "first" /\ Construct("node") /\ kept' = sol' /\ cnt' = 0
         /\ UNCHANGED <<h, minh, strat, op, best, at, cut>>
Candidate == /\ pc = "node" /\ cnt < MaxC /\ Construct("judge") /\ cnt' = cnt + 1
             /\ UNCHANGED <<h, minh, strat, op, kept, best, at, cut>>
Judge == /\ pc = "judge" /\ pc' = "node"
         /\ IF sol.v > kept.v /\ Eligible(sol)
            THEN kept' = sol /\ cnt' = 0 /\ h' = Mx(sol.top, minh)
            ELSE UNCHANGED <<kept, cnt, h>>
         /\ UNCHANGED <<minh, strat, sol, op, best, at, cut>>
Return == /\ pc = "node"
          /\ sol' = kept
          /\ IF op = "ls" THEN op' = "idle" /\ pc' = "-" /\ Forget
             ELSE /\ pc' = "next" /\ kept' = None /\ cnt' = 0 /\ UNCHANGED <<op, at>>
                  /\ best' = IF kept.v > best.v /\ Eligible(kept) THEN kept ELSE best
          /\ UNCHANGED <<h, minh, strat, cut>>
\* an exception while a construction or an evaluation is under way
Interrupt == /\ pc \in {"plain", "start", "first", "node"}
             /\ op' = "idle" /\ pc' = "-" /\ cut' = TRUE
             /\ IF op = "hs" THEN Leave ELSE UNCHANGED strat
             /\ Forget /\ UNCHANGED <<h, minh, sol>>
Next == Begin \/ Plain \/ Start \/ NextStrategy \/ Finish \/ First \/ Candidate \/ Judge
        \/ Return \/ Interrupt
Spec == Init /\ [][Next]_vars

StrategyKept == op = "idle" => strat = 0
HeightSound == h >= 1 /\ minh <= h
HeightFalls == [][h' <= h]_vars
SolveKeepsHeight == [][op = "solve" => h' = h]_vars
\* an interrupted solve leaves the solution that was there
SolveCut == [][op = "solve" /\ cut' => sol' = sol]_vars
\* what a local search returns is its best, and fits the height it left
Fits == (op = "idle" /\ ~cut /\ sol # None /\ minh = 0 /\ sol.full) => sol.top <= h
\* a complete solution of the instance is never given up for a lower one by a
\* search that ends
BestKept == pc = "next" => (Eligible(sol) => sol.v <= best.v)
=============================================================================
