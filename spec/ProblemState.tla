---------------------------- MODULE ProblemState -----------------------------
(* The problem an instance holds, and every operation a user has on it.      *)
(*  D (problem data) : [items, conts, strip, h, minh]                        *)
(*    items, conts : sequences of <<id, width, length>> in dictionary order  *)
(*      (ids are integers that keep the order of the ids' texts)             *)
(*    h, minh : container height and minimum height (0: none)                *)
(* Arguments:                                                                *)
(*    id   : [k |-> "str", v |-> id] or [k |-> "other", v |-> 0]             *)
(*    dims : [kind |-> "dict" / "other", kv |-> sequence of <<key, value>>]  *)
(*           keys 1 width, 2 length, 0 anything else; an invalid value       *)
(*           (zero, negative, not an integer) is an integer below 1          *)
(* Apply(D, op) is [d |-> problem data afterwards, ok |-> it succeeds].      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(q) == {q[n] : n \in DOMAIN q}
Ids(q) == {q[n][1] : n \in DOMAIN q}
At(q, id) == CHOOSE n \in DOMAIN q : q[n][1] = id
Without(q, id) == SelectSeq(q, LAMBDA e : e[1] # id)
Put(q, e) == IF e[1] \in Ids(q) THEN [q EXCEPT ![At(q, e[1])] = e] ELSE Append(q, e)

ValidKV(kv) == /\ Len(kv) = 2
               /\ {kv[n][1] : n \in DOMAIN kv} = {1, 2}
               /\ \A n \in DOMAIN kv : kv[n][2] >= 1
ValidDims(dm) == dm.kind = "dict" /\ ValidKV(dm.kv)
Value(kv, key) == (CHOOSE e \in Range(kv) : e[1] = key)[2]
Entry(id, dm) == <<id.v, Value(dm.kv, 1), Value(dm.kv, 2)>>

Get(d, t) == IF t = "items" THEN d.items ELSE d.conts
With(d, t, q) == IF t = "items" THEN [d EXCEPT !.items = q] ELSE [d EXCEPT !.conts = q]
Locked(d, t) == d.strip /\ t = "conts"
Fail(d) == [d |-> d, ok |-> FALSE]
Good(d) == [d |-> d, ok |-> TRUE]

SetEntry(d, t, id, dm) ==
  IF Locked(d, t) \/ id.k # "str" \/ ~ValidDims(dm) THEN Fail(d)
  ELSE Good(With(d, t, Put(Get(d, t), Entry(id, dm))))
SetDim(d, t, id, key, val) ==
  IF id.v \notin Ids(Get(d, t)) \/ Locked(d, t) \/ key \notin {1, 2} \/ val < 1 THEN Fail(d)
  ELSE LET q == Get(d, t)
       IN  Good(With(d, t, [q EXCEPT ![At(q, id.v)] = [@ EXCEPT ![key + 1] = val]]))
DelEntry(d, t, id) ==
  IF id.v \notin Ids(Get(d, t)) \/ Locked(d, t) \/ Len(Get(d, t)) = 1 THEN Fail(d)
  ELSE Good(With(d, t, Without(Get(d, t), id.v)))

\* the entries of an update are set one after the other up to the first error
RECURSIVE Update(_, _, _, _)
Update(d, t, q, n) ==
  IF n > Len(q) THEN Good(d)
  ELSE LET r == SetEntry(d, t, q[n].id, q[n].dims)
       IN  IF r.ok THEN Update(r.d, t, q, n + 1) ELSE Fail(d)
RECURSIVE DimUpdate(_, _, _, _, _)
DimUpdate(d, t, id, kv, n) ==
  IF id.v \notin Ids(Get(d, t)) THEN Fail(d)
  ELSE IF n > Len(kv) THEN Good(d)
  ELSE LET r == SetDim(d, t, id, kv[n][1], kv[n][2])
       IN  IF r.ok THEN DimUpdate(r.d, t, id, kv, n + 1) ELSE Fail(d)
Assign(d, t, op) ==
  IF \/ Locked(d, t) \/ op.kind # "dict" \/ Len(op.q) = 0
     \/ \E n \in DOMAIN op.q : op.q[n].id.k # "str" \/ ~ValidDims(op.q[n].dims)
  THEN Fail(d)
  ELSE Good(With(d, t, [n \in DOMAIN op.q |-> Entry(op.q[n].id, op.q[n].dims)]))
SetDefault(d, t, id, dm) ==
  IF id.k = "str" /\ id.v \in Ids(Get(d, t)) THEN Good(d) ELSE SetEntry(d, t, id, dm)
Pop(d, t, id, hasdefault) ==
  IF id.v \notin Ids(Get(d, t)) THEN (IF hasdefault THEN Good(d) ELSE Fail(d))
  ELSE DelEntry(d, t, id)

SetHeight(d, v) ==
  IF v < 1 \/ (d.minh # 0 /\ v < d.minh) THEN Fail(d) ELSE Good([d EXCEPT !.h = v])
SetMinHeight(d, v) ==
  IF v < 1 \/ v > d.h THEN Fail(d) ELSE Good([d EXCEPT !.minh = v])
Reset(d) == IF d.strip THEN [d EXCEPT !.h = 10 * d.conts[1][2], !.minh = 0] ELSE d

---------------------------------------------------------------------------
(* sorting and orienting *)
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
\* -1, 0, 1 as the criterion of a is below, equal, above the one of b
Cmp(by, a, b) ==
  LET s == CASE by = "area" -> (a[2] * a[3]) - (b[2] * b[3])
             [] by = "perimeter" -> (a[2] + a[3]) - (b[2] + b[3])
             [] by = "longest_side_ratio" ->
                  (Mx(a[2], a[3]) * Mn(b[2], b[3])) - (Mx(b[2], b[3]) * Mn(a[2], a[3]))
  IN  IF s # 0 THEN s ELSE a[1] - b[1]
Criteria == {"area", "perimeter", "longest_side_ratio"}
IsSorted(q, by, rev) ==
  \A n \in 1..(Len(q) - 1) : IF rev THEN Cmp(by, q[n], q[n + 1]) > 0
                                   ELSE Cmp(by, q[n], q[n + 1]) < 0
\* position of an entry in the sorted sequence (ids are distinct)
Sorted(q, by, rev) ==
  LET rank(e) == 1 + Cardinality({n \in DOMAIN q : IF rev THEN Cmp(by, q[n], e) > 0
                                                          ELSE Cmp(by, q[n], e) < 0})
  IN  [m \in DOMAIN q |-> CHOOSE e \in Range(q) : rank(e) = m]
Sort(d, op) ==
  IF op.by = "none" THEN Good(d)
  ELSE IF op.by \notin Criteria THEN Fail(d)
  ELSE Good([d EXCEPT !.items = Sorted(d.items, op.by, op.rev)])
Oriented(q, o) ==
  [n \in DOMAIN q |-> LET e == q[n] IN
     IF (o = "wide" /\ e[3] > e[2]) \/ (o = "long" /\ e[3] < e[2])
     THEN <<e[1], e[3], e[2]>> ELSE e]
Orient(d, op, rot) ==
  IF rot /\ op.o \in {"wide", "long"}
  THEN [d EXCEPT !.items = Oriented(d.items, op.o)] ELSE d

---------------------------------------------------------------------------
\* potential points strategy: a tuple of different classes (1..10), possibly
\* not all of them; elements 0: another string, -1: not a string
ValidStrategy(op) ==
  /\ op.kind = "tuple"
  /\ \A n \in DOMAIN op.els : op.els[n] \in 1..10
  /\ Cardinality(Range(op.els)) = Len(op.els)

---------------------------------------------------------------------------
\* operations of the dictionaries, with what they leave behind
Dictionary == {"setentry", "setdim", "delentry", "deldim", "update", "dimupdate", "dimdefault",
               "assign", "selfassign", "setdefault", "pop", "delattr"}
\* operations whose exact effect is left open; see Loosely
Removing == {"popitem", "clear"}
Heights == {"height", "minheight", "reset", "delheight"}
Ordering == {"sort", "orient"}
Solving == {"solve", "ls", "hs"}
Strategies == {"strategy", "delstrategy"}
Passive == {"settings", "mutate", "read"} \cup Strategies

Apply(d, op) ==
  CASE op.op = "setentry" -> SetEntry(d, op.t, op.id, op.dims)
    [] op.op = "setdim" -> SetDim(d, op.t, op.id, op.key, op.val)
    [] op.op = "delentry" -> DelEntry(d, op.t, op.id)
    [] op.op = "deldim" -> Fail(d)
    [] op.op = "update" -> Update(d, op.t, op.q, 1)
    [] op.op = "dimupdate" -> DimUpdate(d, op.t, op.id, op.kv, 1)
    [] op.op = "dimdefault" ->
         IF op.id.v \in Ids(Get(d, op.t)) /\ op.key \in {1, 2} THEN Good(d) ELSE Fail(d)
    [] op.op = "assign" -> Assign(d, op.t, op)
    [] op.op = "selfassign" -> Good(d)
    [] op.op = "setdefault" -> SetDefault(d, op.t, op.id, op.dims)
    [] op.op = "pop" -> Pop(d, op.t, op.id, op.hasdef)
    [] op.op = "delattr" -> Fail(d)
    [] op.op = "height" -> SetHeight(d, op.val)
    [] op.op = "minheight" -> SetMinHeight(d, op.val)
    [] op.op = "reset" -> Good(Reset(d))
    [] op.op = "delheight" -> Fail(d)
    [] op.op = "sort" -> Sort(d, op)
    [] op.op = "orient" -> Good(Orient(d, op, op.rot))
    [] op.op = "solve" -> Good(d)
    [] op.op = "ls" -> Good(d)
    [] op.op = "hs" -> LET r == Sort(d, op)
                       IN  IF r.ok THEN Good(Orient(r.d, op, op.rot)) ELSE r
    [] op.op = "strategy" -> IF ValidStrategy(op) THEN Good(d) ELSE Fail(d)
    [] op.op = "delstrategy" -> Fail(d)
    [] OTHER -> Good(d)

\* popitem removes one entry; clear removes some but fails with one left
IsSubSeq(a, b) == /\ Ids(a) \subseteq Ids(b)
                  /\ a = SelectSeq(b, LAMBDA e : e[1] \in Ids(a))
Loosely(d, op, d2, ok) ==
  LET q == Get(d, op.t) q2 == Get(d2, op.t)
  IN  /\ d2 = With(d, op.t, q2)
      /\ Len(q2) >= 1 /\ IsSubSeq(q2, q)
      /\ Locked(d, op.t) => (q2 = q /\ ~ok)
      /\ op.op = "popitem" => (ok <=> Len(q) > 1 /\ ~Locked(d, op.t))
                              /\ Len(q2) = (IF ok THEN Len(q) - 1 ELSE Len(q))
      /\ op.op = "clear" => ~ok

---------------------------------------------------------------------------
ValidSet(q) == /\ Len(q) >= 1
               /\ \A n \in DOMAIN q : q[n][2] >= 1 /\ q[n][3] >= 1
               /\ \A m, n \in DOMAIN q : q[m][1] = q[n][1] => m = n
ValidHeights(d) == d.strip => (d.h >= 1 /\ (d.minh # 0 => (d.minh >= 1 /\ d.minh <= d.h)))
ValidData(d) == ValidSet(d.items) /\ ValidSet(d.conts) /\ (d.strip => Len(d.conts) = 1)
=============================================================================
