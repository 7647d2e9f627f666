------------------------------ MODULE CreateTrace ----------------------------
(* Creation of instances: decided from the definition alone.                 *)
(* Case: conts, items - [kind |-> "none" / "other" / "dict",                 *)
(*                       q |-> sequence of [id, dims] as in ProblemState]    *)
(*       width        - [kind |-> "none" / "other" / "int", v]               *)
(*       set          - "ok" / "bad"                                         *)
(*       err          - class of the exception, or "none"                    *)
(*       d            - problem data afterwards (empty if it failed)         *)
(*       sol          - TRUE iff a solution or values are present            *)
(*       given        - the caller's data is as it was                       *)
(*       usable       - solve works and keeps to the data ("" if not tried)  *)
EXTENDS ProblemState, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE k
Init == k \in DOMAIN Cases
Next == FALSE /\ k' = k
Spec == Init /\ [][Next]_k
C == Cases[k]
NoError == C.fail = "none"

Strip == C.width.kind # "none"
BadIds(s) == \E n \in DOMAIN s.q : s.q[n].id.k # "str"
BadDims(s) == \E n \in DOMAIN s.q : ~ValidDims(s.q[n].dims)
BadSet(s) == s.kind # "dict" \/ s.q = <<>> \/ BadIds(s)
WidthBad == C.width.kind = "other" \/ (C.width.kind = "int" /\ C.width.v < 1)

\* the errors the definition deserves; with several of them any may be raised
Errors ==
  (IF WidthBad THEN {"DimensionsError"} ELSE {})
  \cup (IF Strip /\ C.conts.kind # "none" THEN {"ContainersError"} ELSE {})
  \cup (IF ~Strip /\ BadSet(C.conts) THEN {"ContainersError"} ELSE {})
  \cup (IF ~Strip /\ BadDims(C.conts) THEN {"DimensionsError"} ELSE {})
  \cup (IF BadSet(C.items) THEN {"ItemsError"} ELSE {})
  \cup (IF BadDims(C.items) THEN {"DimensionsError"} ELSE {})
  \cup (IF C.set = "bad" THEN {"SettingsError"} ELSE {})

Entries(s) == [n \in DOMAIN s.q |-> Entry(s.q[n].id, s.q[n].dims)]

Decided == IF Errors = {} THEN C.err = "none" ELSE C.err \in Errors
Data == C.err = "none" /\ Errors = {} =>
  /\ C.d.items = Entries(C.items)
  /\ ~Strip => C.d.conts = Entries(C.conts) /\ C.d.h = 0 /\ C.d.minh = 0
  /\ Strip => /\ Len(C.d.conts) = 1 /\ C.d.conts[1][2] = C.width.v
              /\ C.d.h = 10 * C.width.v /\ C.d.minh = 0
  /\ ~C.sol /\ C.default
Untouched == C.given
Usable == C.err = "none" => C.usable
=============================================================================
