--------------------------- MODULE SolutionTrace ----------------------------
(* Decides the feasibility, fidelity and value properties on solutions      *)
(* recorded from any solving method (solve, local search, hypersearch).     *)
(* A case: [pb, sol, util, total, tden, err, complete]                      *)
(*  util[c]  = reported value * W * L * 1000 (strip: L = height reached),   *)
(*             W*L*1000 only for a reported value of exactly 1 (the maximum) *)
(*  total    = reported total objective * 100 * tden, tden a common         *)
(*             multiple of ten times the container areas; tden = 0: not     *)
(*             recorded                                                     *)
EXTENDS Packing, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE k
Init == k \in DOMAIN Cases
Next == FALSE /\ k' = k
Spec == Init /\ [][Next]_k

C == Cases[k]
Rec(v) == [i |-> v[1], x |-> v[2], y |-> v[3], w |-> v[4], l |-> v[5]]
Sol == [c \in DOMAIN C.sol |-> [a \in DOMAIN C.sol[c] |-> Rec(C.sol[c][a])]]

NoError == C.err = "none"
\* P01
Contained == \A c \in DOMAIN Sol : \A a \in DOMAIN Sol[c] : InBounds(C.pb.conts[c], Sol[c][a])
Separate  == \A c \in DOMAIN Sol : NoOverlap(Sol[c])
\* P02
AllContainers == Len(C.sol) = Len(C.pb.conts) \/ C.err # "none"
ItemsFaithful == \A c \in DOMAIN Sol : \A a \in DOMAIN Sol[c] : Faithful(C.pb.items, C.pb.rot, Sol[c][a])
ItemsOnce     == AtMostOnce(Sol)
\* P03
ValuesTrue == \A c \in DOMAIN Sol : C.util[c] = 1000 * Area(Sol[c])
ValuesInRange ==
  \A c \in DOMAIN Sol :
    LET cap == C.pb.conts[c].W * (IF C.pb.strip THEN Height(Sol[c]) ELSE C.pb.conts[c].L)
    IN  C.util[c] >= 0 /\ C.util[c] <= 1000 * cap
\* the sum of all but the last plus 0.7 of the last (a single one: itself)
RECURSIVE Weighted(_)
Weighted(c) ==
  IF c = 0 THEN 0
  ELSE LET n == Len(Sol)
           L == IF C.pb.strip THEN Max2(1, Height(Sol[c])) ELSE C.pb.conts[c].L
           d == (C.tden \div 10) \div (C.pb.conts[c].W * L)
           f == IF n > 1 /\ c = n THEN 7 ELSE 10
       IN  f * Area(Sol[c]) * d + Weighted(c - 1)
TotalTrue == (C.tden > 0 /\ C.err = "none") => C.total = 100 * Weighted(Len(Sol))
=============================================================================
