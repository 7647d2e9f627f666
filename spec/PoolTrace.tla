------------------------------ MODULE PoolTrace ------------------------------
(* The pool of strategies (P21) and generated problem data (P22).            *)
(* Classes: 1..10.  Case, by what:                                           *)
(*  "pool"  pool - sequence of sequences, suffixes - the fixed suffix (in    *)
(*          strip packing one of two), accepted - all are accepted as        *)
(*          potential_points_strategy                                        *)
(*  "small" pool, const: _exhaustive=False                                   *)
(*  "split" n, parts - per worker the sequence of strategy numbers it tried  *)
(*  "tried" as "split", want - numbers of the strategies of get_strategies   *)
(*          with the arguments the search was given                          *)
(*  "gen"   given [cn, cw, cl, n, iw, il], conts, items - sequences of       *)
(*          <<w, l>>, accepted, keys (exactly the documented keys)           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE k
Init == k \in DOMAIN Cases
Next == FALSE /\ k' = k
Spec == Init /\ [][Next]_k
C == Cases[k]
NoError == C.what # "error"
Range(q) == {q[j] : j \in DOMAIN q}
Classes == 1..10
\* all orders of the elements of S
RECURSIVE Orders(_)
Orders(S) == IF S = {} THEN {<<>>}
             ELSE UNION {{<<x>> \o q : q \in Orders(S \ {x})} : x \in S}
Full(suffix) == {q \o suffix : q \in Orders(Classes \ Range(suffix))}
PoolComplete == C.what = "pool" => \E s \in Range(C.suffixes) : Range(C.pool) = Full(s)
PoolDistinct == C.what = "pool" => Len(C.pool) = Cardinality(Range(C.pool))
PoolUsable == C.what \in {"pool", "small"} =>
   /\ C.accepted
   /\ \A q \in Range(C.pool) : Range(q) = Classes /\ Len(q) = 10
PoolConstant == C.what = "small" => C.pool = C.const
\* the strategies are divided among the workers without omission or repetition
RECURSIVE Sum(_, _)
Sum(q, j) == IF j > Len(q) THEN 0 ELSE Len(q[j]) + Sum(q, j + 1)
Split == C.what = "split" =>
   /\ UNION {Range(C.parts[j]) : j \in DOMAIN C.parts} = 1..C.n
   /\ Sum(C.parts, 1) = C.n
   /\ Len(C.parts) <= C.workers
\* a search tries the pool it is asked for: as a whole, alone in its order
Count(q, x) == Cardinality({j \in DOMAIN q : q[j] = x})
RECURSIVE Total(_, _, _)
Total(q, x, j) == IF j > Len(q) THEN 0 ELSE Count(q[j], x) + Total(q, x, j + 1)
TriedPool == C.what = "tried" =>
   /\ Len(C.parts) <= C.workers
   /\ Sum(C.parts, 1) = C.n
   /\ C.workers = 1 => C.parts = <<C.want>>
   /\ C.n > 10 => UNION {Range(C.parts[j]) : j \in DOMAIN C.parts} = Range(C.want)
   /\ C.n <= 10 => \A x \in Range(C.want) : Total(C.parts, x, 1) = Count(C.want, x)

G == C.given
Near(x, avg, dev) == x >= avg - dev /\ x <= avg + dev /\ x >= 1
Tenth(a) == (a + 5) \div 10
Max1(a) == IF a < 1 THEN 1 ELSE a
SixTenths(a) == Max1((6 * a + 5) \div 10)
GenCounts == C.what = "gen" => Len(C.conts) = G.cn /\ Len(C.items) = G.cn * G.n
GenContainers == C.what = "gen" => \A c \in Range(C.conts) :
   Near(c[1], G.cw, Tenth(G.cw)) /\ Near(c[2], G.cl, Tenth(G.cl))
GenItems == C.what = "gen" => \A c \in Range(C.items) :
   Near(c[1], G.iw, SixTenths(G.iw)) /\ Near(c[2], G.il, SixTenths(G.il))
GenUsable == C.what = "gen" => C.accepted /\ C.keys
=============================================================================
