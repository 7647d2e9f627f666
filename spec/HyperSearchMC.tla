---------------------------- MODULE HyperSearchMC ----------------------------
(* All interleavings of the workers of a multi process hypersearch, with     *)
(* workers raising exceptions in any local search or being killed at any     *)
(* point, for all results of the strategies.  A worker's steps are those of  *)
(* HyperSearchProcess.run: search a strategy, read the shared array, publish *)
(* a better value, look at the stopping criteria; finally deliver an output, *)
(* in two steps: part of it may have been written when the worker is killed, *)
(* and a large one (Large) is only completed while the parent receives it.   *)
(* The parent starts the workers, receives their outputs one after the       *)
(* other, and waits for all of them to end.                                  *)
(* Locked and EofSeen describe mechanisms: Locked - reading and publishing   *)
(* hold a lock on the array (the code before fix bebf0c3), EofSeen - the     *)
(* parent notices that a worker ended after a partial output (not before     *)
(* fix 5834cd8).  Returns fails for Locked = TRUE and for EofSeen = FALSE    *)
(* (checked as such by P14), and holds for FALSE and TRUE.                   *)
EXTENDS HyperSearch
CONSTANTS N, Wn, MaxV, Faults, Locked, EofSeen, Large

Workers == 1..NumParts(N, Wn)
Opt == MaxV

VARIABLES res,    \* strategy -> its result [v, elig]
          v0,     \* value of the plain solution all workers start from
          pos,    \* worker -> strategy it is at
          pc,     \* worker -> init / search / read / publish / check / deliver / sending / done / ...
          best,   \* worker -> [v, s] best value and its strategy (0 = plain)
          read,   \* worker -> last maximum read from the array
          array,  \* shared array
          outq,   \* worker -> delivered output, or None
          lock,   \* the worker that holds the array's lock, or 0
          turn,   \* the worker whose output the parent waits for; beyond all: joining
          parent, \* running / returned / error
          final,  \* what the instance gets
          faults  \* workers that failed so far
vars == <<res, v0, pos, pc, best, read, array, outq, lock, turn, parent, final, faults>>

None == [v |-> -1, s |-> -1]
Init == /\ v0 \in 0..MaxV
        /\ res \in [1..N -> [v : 0..MaxV, elig : BOOLEAN]]
        /\ pos = [w \in Workers |-> MinOf(PartOf(N, Wn, w))]
        /\ pc = [w \in Workers |-> "init"]
        /\ best = [w \in Workers |-> [v |-> v0, s |-> 0]]
        /\ read = [w \in Workers |-> 0]
        /\ array = [w \in Workers |-> 0]
        /\ outq = [w \in Workers |-> None]
        /\ lock = 0 /\ turn = 1
        /\ parent = "running" /\ final = None /\ faults = {}

Start(w) == /\ pc[w] = "init"
            /\ pc' = [pc EXCEPT ![w] = IF v0 >= Opt THEN "deliver" ELSE "search"]
            /\ UNCHANGED <<res, v0, pos, best, read, array, outq, lock, turn, parent, final, faults>>
Search(w) == /\ pc[w] = "search"
             /\ pc' = [pc EXCEPT ![w] = "read"]
             /\ UNCHANGED <<res, v0, pos, best, read, array, outq, lock, turn, parent, final, faults>>
\* the lock of the array is taken before an access and given back after it
Lock(w) == /\ Locked /\ pc[w] \in {"read", "publish"} /\ lock = 0 /\ lock' = w
           /\ UNCHANGED <<res, v0, pos, pc, best, read, array, outq, turn, parent, final, faults>>
Unlock == lock' = IF Locked THEN 0 ELSE lock
Holds(w) == Locked => lock = w
Read(w) == /\ pc[w] = "read" /\ Holds(w) /\ Unlock
           /\ read' = [read EXCEPT ![w] = MaxOf({array[x] : x \in Workers})]
           /\ pc' = [pc EXCEPT ![w] = "publish"]
           /\ UNCHANGED <<res, v0, pos, best, array, outq, turn, parent, final, faults>>
Publish(w) ==
  /\ pc[w] = "publish" /\ Holds(w) /\ Unlock
  /\ LET r == res[pos[w]]
     IN  IF Accepts(best[w].v, r)
         THEN /\ best' = [best EXCEPT ![w] = [v |-> r.v, s |-> pos[w]]]
              /\ array' = [array EXCEPT ![w] = r.v]
              /\ pc' = [pc EXCEPT ![w] = IF r.v >= Opt THEN "deliver" ELSE "check"]
         ELSE /\ UNCHANGED <<best, array>>
              /\ pc' = [pc EXCEPT ![w] = "check"]
  /\ UNCHANGED <<res, v0, pos, read, outq, turn, parent, final, faults>>
\* the time limit may pass at any time
CheckStop(w) ==
  /\ pc[w] = "check"
  /\ \E late \in BOOLEAN :
       IF late \/ read[w] >= Opt \/ pos[w] = MaxOf(PartOf(N, Wn, w))
       THEN pc' = [pc EXCEPT ![w] = "deliver"] /\ UNCHANGED pos
       ELSE pc' = [pc EXCEPT ![w] = "search"] /\ pos' = [pos EXCEPT ![w] = @ + 1]
  /\ UNCHANGED <<res, v0, best, read, array, outq, lock, turn, parent, final, faults>>
Deliver(w) == /\ pc[w] = "deliver"
              /\ pc' = [pc EXCEPT ![w] = "sending"]
              /\ UNCHANGED <<res, v0, pos, best, read, array, outq, lock, turn, parent, final, faults>>
Sent(w) == /\ pc[w] = "sending" /\ (Large => turn = w)
           /\ outq' = [outq EXCEPT ![w] = best[w]]
           /\ pc' = [pc EXCEPT ![w] = "done"]
           /\ UNCHANGED <<res, v0, pos, best, read, array, lock, turn, parent, final, faults>>
Alive(w) == pc[w] \notin {"done", "failed", "killed", "cut"}
\* an exception is caught: the array entry is marked and a failure delivered
Raise(w) == /\ Faults /\ pc[w] \in {"init", "search"}
            /\ array' = [array EXCEPT ![w] = -1]
            /\ pc' = [pc EXCEPT ![w] = "failed"] /\ faults' = faults \cup {w}
            /\ UNCHANGED <<res, v0, pos, best, read, outq, lock, turn, parent, final>>
\* a killed worker leaves everything as it is, perhaps half an output ("cut")
Kill(w) == /\ Faults /\ Alive(w)
           /\ pc' = [pc EXCEPT ![w] = IF pc[w] = "sending" THEN "cut" ELSE "killed"]
           /\ faults' = faults \cup {w}
           /\ UNCHANGED <<res, v0, pos, best, read, array, outq, lock, turn, parent, final>>

\* the parent receives the output of the worker, or learns that it is gone
Receive == /\ parent = "running" /\ turn <= NumParts(N, Wn)
           /\ pc[turn] \in {"done", "failed", "killed"} \/ (EofSeen /\ pc[turn] = "cut")
           /\ turn' = turn + 1
           /\ UNCHANGED <<res, v0, pos, pc, best, read, array, outq, lock, parent, final, faults>>
Eff(w) == IF outq[w] = None THEN -1 ELSE array[w]
Collect ==
  /\ parent = "running" /\ turn > NumParts(N, Wn) /\ \A w \in Workers : ~Alive(w)
  /\ Locked => lock = 0   \* the parent reads the array as well
  /\ LET m == MaxOf({Eff(w) : w \in Workers})
     IN  IF m = -1 THEN parent' = "error" /\ UNCHANGED final
         ELSE LET win == MinOf({w \in Workers : Eff(w) = m})
              IN  final' = outq[win] /\ parent' = "returned"
  /\ UNCHANGED <<res, v0, pos, pc, best, read, array, outq, lock, turn, faults>>

Next == \/ \E w \in Workers : \/ Start(w) \/ Search(w) \/ Read(w) \/ Publish(w) \/ CheckStop(w)
                              \/ Lock(w) \/ Deliver(w) \/ Sent(w) \/ Raise(w) \/ Kill(w)
        \/ Receive \/ Collect
Worker(w) == Start(w) \/ Search(w) \/ Read(w) \/ Publish(w) \/ CheckStop(w)
             \/ Lock(w) \/ Deliver(w) \/ Sent(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Receive) /\ WF_vars(Collect) /\ \A w \in Workers : WF_vars(Worker(w))

\* P13: the best of all outputs delivered by workers that did not fail
BestOfSurvivors ==
  parent = "returned" =>
    /\ final.v = MaxOf({outq[w].v : w \in Workers \ faults})
    /\ \E w \in Workers \ faults : final = outq[w]
    /\ final.s > 0 => final.v = res[final.s].v /\ res[final.s].elig
    /\ final.v >= v0
\* P14: an error exactly when every worker failed
ErrorIffAllFailed == /\ parent = "error" => faults = Workers
                     /\ parent = "returned" => faults # Workers
\* P16: nobody searches on after its own maximum
StopsAtOptimum == \A w \in Workers : pc[w] = "search" => best[w].v < Opt
\* P13: nothing is skipped without a reason
Exhaustive ==
  (parent = "returned" /\ faults = {} /\ final.v < Opt) =>
    \A w \in Workers : outq[w].v >= v0
Returns == <>(parent # "running")
=============================================================================
