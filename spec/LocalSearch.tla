----------------------------- MODULE LocalSearch -----------------------------
(* The 2-exchange local search (AbstractLocalSearch.local_search).           *)
(* A sequence is a permutation of 1..n.  Objective values are integers (in   *)
(* traces: ranks of the recorded floating point values).                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* exchanges <<i, j>> of two positions in lexicographic order
NumSwaps(n) == (n * (n - 1)) \div 2
NextSwap(n, sw) == IF sw[2] < n THEN <<sw[1], sw[2] + 1>> ELSE <<sw[1] + 1, sw[1] + 2>>
FirstSwap == <<1, 2>>
Exchange(q, sw) == [q EXCEPT ![sw[1]] = q[sw[2]], ![sw[2]] = q[sw[1]]]

Better(sense, a, b) == IF sense = "MAX" THEN a > b ELSE a < b
Optimal(sense, v, opt) == IF sense = "MAX" THEN v >= opt ELSE v <= opt

\* neighbours examined per node at most
Budget(n, throttle, maxn) == IF throttle /\ NumSwaps(n) > maxn THEN maxn ELSE NumSwaps(n)

(* State of a search:                                                        *)
(*  node  current node        best  its objective value                      *)
(*  sw    next exchange       cnt   neighbours of the node examined so far   *)
(*  why   "run" or the reason of the end                                     *)
StartSearch(n, sense, opt, v0) ==
  [node |-> [i \in 1..n |-> i], best |-> v0, sw |-> FirstSwap, cnt |-> 0,
   why |-> IF Optimal(sense, v0, opt) THEN "optimum" ELSE IF n < 2 THEN "local" ELSE "run"]

Candidate(s) == Exchange(s.node, s.sw)

(* The candidate evaluates to v and is accepted or not; final: v cannot be   *)
(* improved; late: the time limit has passed after it.                       *)
Move(s, n, budget, v, acc, final, late) ==
  IF acc
  THEN [node |-> Candidate(s), best |-> v, sw |-> FirstSwap, cnt |-> 0,
        why |-> IF final THEN "optimum" ELSE IF late THEN "time" ELSE "run"]
  ELSE [s EXCEPT !.sw = NextSwap(n, @), !.cnt = @ + 1,
                 !.why = IF late THEN "time" ELSE IF s.cnt + 1 >= budget
                         THEN (IF budget >= NumSwaps(n) THEN "local" ELSE "throttle") ELSE "run"]

(* The same with the values compared in the usual way; elig: the candidate   *)
(* may be accepted (strip packing without minimum height: it is complete).   *)
Evaluate(s, n, sense, opt, budget, v, elig, late) ==
  Move(s, n, budget, v, elig /\ Better(sense, v, s.best), Optimal(sense, v, opt), late)
=============================================================================
