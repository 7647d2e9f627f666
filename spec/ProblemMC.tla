------------------------------ MODULE ProblemMC ------------------------------
(* Every history of operations (dictionary operations, heights, sorting,     *)
(* solving) on small problems: the data stays valid and a solution is only   *)
(* ever present for the data it was computed for.                            *)
EXTENDS ProblemState
CONSTANTS NIds, MaxDim, StripMode, MaxH
VARIABLES d, sol, op
vars == <<d, sol, op>>
None == "none"
IdArgs == {[k |-> "str", v |-> i] : i \in 1..NIds} \cup {[k |-> "other", v |-> 0]}
Vals == 0..MaxDim
Pair(v, w) == [kind |-> "dict", kv |-> <<<<1, v>>, <<2, w>>>>]
DimArgs == {Pair(v, w) : v \in Vals, w \in Vals}
           \cup {[kind |-> "other", kv |-> <<>>], [kind |-> "dict", kv |-> <<<<1, 1>>>>],
                 [kind |-> "dict", kv |-> <<<<1, 1>>, <<1, 2>>>>],
                 [kind |-> "dict", kv |-> <<<<1, 1>>, <<0, 2>>>>]}
T == {"items", "conts"}
Entries == {[id |-> i, dims |-> m] : i \in IdArgs, m \in {Pair(1, MaxDim), Pair(0, 1)}}
Ops ==
  {[op |-> "setentry", t |-> t, id |-> i, dims |-> m] : t \in T, i \in IdArgs, m \in DimArgs}
  \cup {[op |-> "setdim", t |-> t, id |-> i, key |-> y, val |-> v] :
          t \in T, i \in IdArgs, y \in 0..2, v \in Vals}
  \cup {[op |-> "delentry", t |-> t, id |-> i] : t \in T, i \in IdArgs}
  \cup {[op |-> "pop", t |-> t, id |-> i, hasdef |-> b] : t \in T, i \in IdArgs, b \in BOOLEAN}
  \cup {[op |-> "update", t |-> t, q |-> <<e, f>>] : t \in T, e, f \in Entries}
  \cup {[op |-> "assign", t |-> t, kind |-> "dict", q |-> <<e>>] : t \in T, e \in Entries}
  \cup {[op |-> "height", val |-> v] : v \in 0..MaxH}
  \cup {[op |-> "minheight", val |-> v] : v \in 0..MaxH}
  \cup {[op |-> "reset"]}
  \cup {[op |-> "sort", by |-> b, rev |-> r] : b \in Criteria \cup {"none", "bad"}, r \in BOOLEAN}
  \cup {[op |-> "orient", o |-> o, rot |-> r] : o \in {"wide", "long", "bad"}, r \in BOOLEAN}
  \cup {[op |-> "solve"]}
NoOp == [op |-> "init"]
Init ==
  /\ d \in {[items |-> <<<<1, a, 1>>>>, conts |-> <<<<1, b, IF StripMode THEN 1 ELSE b>>>>,
             strip |-> StripMode, h |-> IF StripMode THEN 10 * b ELSE 0, minh |-> 0] :
              a, b \in 1..MaxDim}
  /\ sol = <<>> /\ op = NoOp
Next ==
  \/ \E o \in Ops : LET r == Apply(d, o) IN
       /\ op' = o
       /\ d' = r.d
       /\ sol' = IF o.op = "solve" THEN <<r.d.items, r.d.conts>>
                 ELSE IF r.d.items # d.items \/ r.d.conts # d.conts THEN <<>> ELSE sol
  \/ \E t \in T : \E q \in {Without(Get(d, t), i) : i \in Ids(Get(d, t))} :
       /\ op' = [op |-> "popitem", t |-> t]
       /\ Loosely(d, [op |-> "popitem", t |-> t], With(d, t, q), TRUE)
       /\ d' = With(d, t, q) /\ sol' = <<>>
Spec == Init /\ [][Next]_vars
View == <<d, sol>>
DataValid == ValidData(d)
HeightsValid == ValidHeights(d)
SolutionCurrent == sol = <<>> \/ sol = <<d.items, d.conts>>
StripFixed == [][StripMode => d'.conts = d.conts]_vars
SortKeeps == [][op'.op \in {"sort", "orient"} =>
                 /\ Ids(d'.items) = Ids(d.items)
                 /\ {{e[2], e[3]} : e \in Range(d'.items)} = {{e[2], e[3]} : e \in Range(d.items)}
                 /\ (op'.op = "sort" /\ op'.by \in Criteria
                       => Range(d'.items) = Range(d.items) /\ IsSorted(d'.items, op'.by, op'.rev))]_vars
=============================================================================
