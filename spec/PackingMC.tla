------------------------------ MODULE PackingMC ------------------------------
(* Exhaustive exploration of the construction in one small container: at    *)
(* every pending point (whatever the strategy) any item (whatever the       *)
(* sequence) that fits may be placed, or the point dropped.  Every run of   *)
(* the construction for any strategy, sequence and rotation setting is one  *)
(* of these behaviours.                                                     *)
EXTENDS Packing
CONSTANTS MaxW, MaxL, MaxDim, MaxItems

VARIABLES W, L, P, pts, todo
vars == <<W, L, P, pts, todo>>
\* todo: the points of the current step; pts: all points generated so far as
\* a set (the order of points is irrelevant for safety)
Init == /\ W \in 1..MaxW /\ L \in 1..MaxL
        /\ P = {} /\ pts = {<<0, 0>>} /\ todo = {}

AsSeq(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A a \in S : \E b \in 1..Cardinality(S) : q[b] = a

PlaceAt(p, w, l) ==
  LET Q == AsSeq(P)
      r == [x |-> p[1], y |-> p[2], w |-> w, l |-> l]
  IN  /\ Fits(W, L, Q, p[1], p[2], w, l)
      /\ LET Q2 == Append(Q, r)
             g  == Generated(W, L, Q2, r)
             new == UNION {{g[c][a] : a \in DOMAIN g[c]} : c \in Classes}
         IN  /\ P' = P \cup {r}
             /\ pts' = (pts \ {p}) \cup new
             /\ todo' = new
      /\ UNCHANGED <<W, L>>

Next == /\ Cardinality(P) < MaxItems
        /\ \E p \in pts : \E w, l \in 1..MaxDim : PlaceAt(p, w, l)
Spec == Init /\ [][Next]_vars

Feasible == \A r \in P : /\ InBounds([W |-> W, L |-> L], r)
                         /\ \A q \in P : q = r \/ Disjoint(q, r.x, r.y, r.w, r.l)
\* newly generated points are free cells of the container
PointsFree == \A p \in todo : /\ p[1] \in 0..(W-1) /\ p[2] \in 0..(L-1)
                              /\ \A r \in P : ~Covers(r, p[1], p[2])
\* a cell has at most one owner, so its kind is well defined
OneOwner == \A x \in 0..(W-1), y \in 0..(L-1) : Cardinality({r \in P : Covers(r, x, y)}) <= 1
=============================================================================
