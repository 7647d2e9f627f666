----------------------------- MODULE HyperSearch -----------------------------
(* The hypersearch over a pool of strategies, by one process or by several   *)
(* workers.  Values are integers; a result is [v, elig] where elig tells     *)
(* that it may be accepted (strip packing without minimum height: complete). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Accepts(best, r) == r.elig /\ r.v > best

\* division of the pool 1..N among Wn workers: consecutive parts
Ceil(a, b) == (a + b - 1) \div b
PartSize(N, Wn) == Ceil(N, Wn)
NumParts(N, Wn) == Ceil(N, PartSize(N, Wn))
PartOf(N, Wn, w) == ((w - 1) * PartSize(N, Wn) + 1)..
                    (IF w * PartSize(N, Wn) > N THEN N ELSE w * PartSize(N, Wn))
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
=============================================================================
