------------------------------- MODULE Engine --------------------------------
(* The local search engine as its users extend it: the order in which        *)
(* AbstractLocalSearch.local_search calls the methods of a subclass.         *)
(* C, what the subclass and the call define:                                 *)
(*  n, sense, opt, cap (neighbours per node at most), debug,                 *)
(*  initop, extra : the optional methods are defined,                        *)
(*  cmp : how it compares ("default"; "margin": better by m; "loose": not    *)
(*   worse; "veto": better and not divisible by m),                          *)
(*  glob : when it is final ("default"; "exact": equal to the optimum;       *)
(*   "beyond": better than the optimum)                                      *)
EXTENDS LocalSearch

Accept(C, v, best) ==
  CASE C.cmp = "margin" -> IF C.sense = "MAX" THEN v >= best + C.m ELSE v <= best - C.m
    [] C.cmp = "loose"  -> v = best \/ Better(C.sense, v, best)
    [] C.cmp = "veto"   -> v % C.m # 0 /\ Better(C.sense, v, best)
    [] OTHER            -> Better(C.sense, v, best)
Final(C, v) == CASE C.glob = "exact"  -> v = C.opt
                 [] C.glob = "beyond" -> Better(C.sense, v, C.opt)
                 [] OTHER             -> Optimal(C.sense, v, C.opt)
Cap(C) == IF C.cap > NumSwaps(C.n) THEN NumSwaps(C.n) ELSE C.cap

(* State: ph "new", "init" or "on"; s the search; pend the methods owed to   *)
(* the subclass; nn nodes; rep the report of the node that just ended; sol   *)
(* the number of the solution kept last                                      *)
NoReport == [nn |-> 0, best |-> 0, cnt |-> 0, late |-> FALSE, final |-> FALSE, found |-> FALSE]
StartEngine == [ph |-> "new", s |-> [node |-> <<>>, best |-> 0, sw |-> FirstSwap, cnt |-> 0,
                                     why |-> "run"],
                pend |-> {}, nn |-> 0, rep |-> NoReport, sol |-> 0]

\* the methods that may be called next; none: the search has ended
Allowed(C, r) ==
  CASE r.ph = "new"   -> {"init"}
    [] r.ph = "init"  -> {"initop"}
    [] r.pend # {}    -> IF r.pend = {"debug"} THEN r.pend ELSE r.pend \ {"debug"}
    [] OTHER          -> IF r.s.why = "run" THEN {"eval"} ELSE {}

\* the search begins: a node without neighbours is a node too
On(C, r) == [r EXCEPT !.ph = "on",
                      !.pend = IF r.s.why = "local" /\ C.debug THEN {"debug"} ELSE {},
                      !.rep = [NoReport EXCEPT !.nn = 1, !.best = r.s.best],
                      !.nn = IF r.s.why = "optimum" THEN 0 ELSE 1]

\* a call; v its value, late: the limit has passed, sol: number of a solution
Call(C, r, m, v, late, sol) ==
  CASE m = "init" ->
         LET q == [r EXCEPT !.s = [node |-> [i \in 1..C.n |-> i], best |-> v, sw |-> FirstSwap,
                                   cnt |-> 0, why |-> IF Final(C, v) THEN "optimum"
                                                      ELSE IF C.n < 2 THEN "local" ELSE "run"],
                            !.sol = sol, !.ph = "init"]
         IN  IF C.initop THEN q ELSE On(C, q)
    [] m = "initop" -> On(C, r)
    [] m = "eval" ->
         LET acc == Accept(C, v, r.s.best)
             s2  == Move(r.s, C.n, Cap(C), v, acc, Final(C, v), late)
             end == acc \/ s2.why # "run"
         IN  [r EXCEPT !.s = s2,
                       !.pend = (IF acc THEN {"sol"} ELSE {})
                                \cup (IF acc /\ C.extra THEN {"extra"} ELSE {})
                                \cup (IF end /\ C.debug THEN {"debug"} ELSE {}),
                       !.rep = [nn |-> r.nn, best |-> s2.best, cnt |-> r.s.cnt + 1, late |-> late,
                                final |-> acc /\ Final(C, v), found |-> acc],
                       !.nn = IF acc /\ s2.why = "run" THEN @ + 1 ELSE @]
    [] m = "sol"   -> [r EXCEPT !.pend = @ \ {"sol"}, !.sol = sol]
    [] m = "extra" -> [r EXCEPT !.pend = @ \ {"extra"}]
    [] OTHER       -> [r EXCEPT !.pend = @ \ {"debug"}]
Ended(C, r) == Allowed(C, r) = {}
=============================================================================
