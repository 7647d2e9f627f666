---------------------------- MODULE HyperMPTrace -----------------------------
(* Validates recorded multi process hypersearches.                           *)
(* Case: N, workers, v0, fp0, opt, limit (since the start, quarter seconds); *)
(*  logs : one sequence per worker that did anything, of                     *)
(*    [st, v, elig, fp, t, ord, ctl, fault, h0, minh]; ord = global order of *)
(*    the end of the search (0: not ordered), ctl = the order was enforced       *)
(*    including the steps up to the worker's next search; fault: "none" or   *)
(*    the fault injected in this search                                      *)
(*    (st = 0: failed before its first search)                               *)
(*  fin : [raised, v, fp, st (0: none), left (workers left     *)
(*    running), clean (a failed search left no other solution)], sp : value  *)
(*    of the single process search or -1, strip, h, mustAll                  *)
EXTENDS HyperSearch, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE k
Init == k \in DOMAIN Cases
Next == FALSE /\ k' = k
Spec == Init /\ [][Next]_k
C == Cases[k]
Logs == C.logs
Wk == DOMAIN Logs

\* a worker's result: fold of its searches, starting from the plain solution
RECURSIVE Fold(_, _, _)
Fold(q, n, acc) ==
  IF n > Len(q) THEN acc
  ELSE Fold(q, n + 1, IF q[n].fault = "none" /\ Accepts(acc.v, q[n])
                      THEN [v |-> q[n].v, fp |-> q[n].fp, st |-> q[n].st] ELSE acc)
Output(w) == Fold(Logs[w], 1, [v |-> C.v0, fp |-> C.fp0, st |-> 0])
Failed(w) == \E n \in DOMAIN Logs[w] : Logs[w][n].fault # "none"
Survivors == {w \in Wk : ~Failed(w)}
\* workers that recorded nothing (the plain solution is already the maximum;
\* no faults are injected in such cases) deliver the plain solution
SilentSurvivors == IF C.v0 >= C.opt THEN 1 ELSE 0
AllFail == Survivors = {} /\ SilentSurvivors <= 0
Done(w) == {Logs[w][n].st : n \in DOMAIN Logs[w]} \ {0}   \* 0: failed at the start

\* P13
BestOutputs == LET O == {Output(w) : w \in Survivors}
                     \cup (IF SilentSurvivors > 0 THEN {[v |-> C.v0, fp |-> C.fp0, st |-> 0]} ELSE {})
               IN  {o \in O : \A p \in O : o.v >= p.v}
NoError == C.err = "none"
BestOfWorkers ==
  (C.err = "none" /\ ~AllFail) =>
    /\ ~C.fin.raised
    /\ \E o \in BestOutputs : C.fin.v = o.v /\ C.fin.fp = o.fp /\ C.fin.st = o.st
Divided == \A a, b \in Wk : a # b => Done(a) \cap Done(b) = {}
InOrder == \A w \in Wk : \A n \in 1..(Len(Logs[w]) - 1) :
             Logs[w][n].st < Logs[w][n + 1].st \/ Logs[w][n + 1].fault # "none"
AtMostWorkers == Cardinality(Wk) <= C.workers
KnownStrategies == \A w \in Wk : \A n \in DOMAIN Logs[w] : 
   \/ Logs[w][n].st \in 1..C.N
   \/ Logs[w][n].st = 0 /\ Logs[w][n].fault # "none"
SomeOptimum == \E w \in Wk : \E n \in DOMAIN Logs[w] :
                  Logs[w][n].fault = "none" /\ Logs[w][n].elig /\ Logs[w][n].v >= C.opt
SomeLate == \E w \in Wk : \E n \in DOMAIN Logs[w] : Logs[w][n].t > C.limit
\* without a reason to stop every strategy is searched
AllTried ==
  (C.err = "none" /\ C.v0 < C.opt /\ ~SomeOptimum /\ ~SomeLate
   /\ \A w \in Wk : ~Failed(w))
  => UNION {Done(w) : w \in Wk} = 1..C.N
SameAsSingle == (C.err = "none" /\ C.sp >= 0) => C.fin.v = C.sp
GivenThrottle == \A w \in Wk : \A n \in DOMAIN Logs[w] : Logs[w][n].thr = C.thr
\* P14
ErrorIffAllFailed == C.err = "none" => (C.fin.raised <=> AllFail)
NoPartialResult == (C.err = "none" /\ C.fin.raised) => C.fin.clean
NoneLeft == C.err = "none" => C.fin.left = 0
\* P15
Heights == C.strip => \A w \in Wk : (Len(Logs[w]) > 0 /\ Logs[w][1].st > 0) => Logs[w][1].h0 = C.h
MinHeights == C.strip => \A w \in Wk : \A n \in DOMAIN Logs[w] :
                             Logs[w][n].st > 0 => Logs[w][n].minh = C.minh
Complete == (C.err = "none" /\ C.strip /\ ~C.fin.raised) => (C.fin.elig \/ C.fin.fp = C.fp0)
\* the workers lower their own heights: the instance keeps the one it had
HeightKept == (C.err = "none" /\ C.strip) => C.fin.h = C.h /\ C.fin.minh = C.minh
\* P16
StopsAtTime == \A w \in Wk : \A n \in 1..(Len(Logs[w]) - 1) : Logs[w][n].t <= C.limit
StopsAtOptimum ==
  /\ C.v0 >= C.opt => \A w \in Wk : Len(Logs[w]) = 0
  /\ \A w \in Wk : \A n \in 1..(Len(Logs[w]) - 1) :
       ~(Logs[w][n].fault = "none" /\ Logs[w][n].elig /\ Logs[w][n].v >= C.opt)
\* a maximum published before the worker looked at the array stops the worker
StopsAtOthersOptimum ==
  \A w \in Wk : \A n \in 1..(Len(Logs[w]) - 1) :
    Logs[w][n].ctl =>
      ~\E x \in Wk : x # w /\ \E m \in DOMAIN Logs[x] :
          /\ Logs[x][m].ctl /\ Logs[x][m].ord < Logs[w][n].ord
          /\ Logs[x][m].fault = "none" /\ Logs[x][m].elig /\ Logs[x][m].v >= C.opt
=============================================================================
