------------------------------ MODULE DetTrace ------------------------------
(* Repeated runs of the same abstract problem, recorded in different        *)
(* contexts (instances, histories, processes, hash seeds, names): the spec  *)
(* is a function of the abstract problem, so all outcomes must agree.       *)
(* Case: [runs : sequence of [ctx, out]]; out is the canonical text of the  *)
(* outcome (placements in order, values, order of containers).              *)
EXTENDS Integers, Sequences, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, j
Init == k \in DOMAIN Cases /\ j = 1
Next == j < Len(Cases[k].runs) /\ j' = j + 1 /\ k' = k
Spec == Init /\ [][Next]_<<k, j>>
SameOutcome == Cases[k].runs[j].out = Cases[k].runs[1].out
=============================================================================
