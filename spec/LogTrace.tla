------------------------------- MODULE LogTrace ------------------------------
(* Validates what was logged during recorded operations.                     *)
(* Case: seq - records as in Logging                                         *)
EXTENDS Logging, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE k
Init == k \in DOMAIN Cases
Next == FALSE /\ k' = k
Spec == Init /\ [][Next]_k
C == Cases[k]
NoError == C.fail = "none"
All(P(_)) == \A n \in DOMAIN C.seq : P(C.seq[n])
ErrorsLogged == All(ErrorLogged)
NoFalseErrors == All(NoFalseError)
Warnings == All(Warning)
SolutionsTold == All(Told)
ExportsTold == All(Exports)
FailedWorkersTold == All(WorkersTold)
=============================================================================
