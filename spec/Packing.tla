------------------------------ MODULE Packing ------------------------------
(***************************************************************************)
(* Geometry and the point generation construction of hyperpack.            *)
(*                                                                         *)
(* Cells are 0-based <<x, y>>; a placement is a record                     *)
(*   [i |-> item number, x, y, w, l].                                      *)
(* The occupied cells of a container are derived from the placements; the  *)
(* implementation keeps them in a matrix with 3 = corner, 2 = edge,        *)
(* 1 = interior, 0 = empty cell.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Classes == {"A", "B", "A_", "B_", "A__", "B__", "C", "D", "E", "F"}
NoPoints == [k \in Classes |-> <<>>]

(*--------------------------- occupied cells ------------------------------*)
Covers(r, x, y) == /\ r.x <= x /\ x < r.x + r.w
                   /\ r.y <= y /\ y < r.y + r.l

Kind(r, x, y) ==
  LET ex == x = r.x \/ x = r.x + r.w - 1
      ey == y = r.y \/ y = r.y + r.l - 1
  IN  IF ex /\ ey THEN 3 ELSE IF ex \/ ey THEN 2 ELSE 1

Cell(P, x, y) ==
  LET K == {k \in DOMAIN P : Covers(P[k], x, y)}
  IN  IF K = {} THEN 0 ELSE LET k == CHOOSE k \in K : TRUE IN Kind(P[k], x, y)

Disjoint(r, x, y, w, l) == \/ x + w <= r.x \/ r.x + r.w <= x
                           \/ y + l <= r.y \/ r.y + r.l <= y

\* a w x l item can be put at <<x, y>>
Fits(W, L, P, x, y, w, l) ==
  /\ x + w <= W /\ y + l <= L
  /\ \A k \in DOMAIN P : Disjoint(P[k], x, y, w, l)

Occ23 == {2, 3}

(*------------------------- candidate points ------------------------------*)
\* leftward scan at the rows Ay and Ay-1; -1 when there is no projection
RECURSIVE ScanLeft(_, _, _)
ScanLeft(P, x, Ay) ==
  IF x < 0 THEN -1
  ELSE LET a == Cell(P, x, Ay)
           b == Cell(P, x, Ay - 1)
       IN  IF a = 0 /\ b = 0 /\ x = 0 THEN 0
           ELSE IF a \in Occ23 /\ (b \in Occ23 \/ b = 0) THEN x + 1
           ELSE ScanLeft(P, x - 1, Ay)

\* downward scan at the columns Bx and Bx-1; stops at an item on the left
RECURSIVE ScanDown(_, _, _)
ScanDown(P, y, Bx) ==
  IF y < 0 THEN -1
  ELSE LET a == Cell(P, Bx, y)
           b == Cell(P, Bx - 1, y)
       IN  IF a = 0 /\ b = 0 /\ y = 0 THEN 0
           ELSE IF a \in Occ23 /\ (b \in Occ23 \/ b = 0) THEN y + 1
           ELSE IF b \in Occ23 /\ a = 0 THEN -1
           ELSE ScanDown(P, y - 1, Bx)

RECURSIVE CPoints(_, _, _, _)
CPoints(P, x, last, Ay) ==
  IF x > last THEN <<>>
  ELSE (IF Cell(P, x, Ay) = 3 /\ Cell(P, x + 1, Ay) = 0 THEN << <<x + 1, Ay>> >> ELSE <<>>)
       \o CPoints(P, x + 1, last, Ay)

RECURSIVE DPoints(_, _, _, _)
DPoints(P, y, last, Bx) ==
  IF y > last THEN <<>>
  ELSE (IF Cell(P, Bx, y) = 3 /\ Cell(P, Bx, y + 1) = 0 THEN << <<Bx, y + 1>> >> ELSE <<>>)
       \o DPoints(P, y + 1, last, Bx)

\* The points generated by placement r (already part of P) in a W x L
\* container: class -> sequence of points
Generated(W, L, P, r) ==
  LET Xo == r.x
      Yo == r.y
      Ay == r.y + r.l
      Bx == r.x + r.w
      \* the corner above left is free
      afree == Ay < L /\ Cell(P, Xo, Ay) = 0
      agen  == /\ afree
               /\ \/ Xo = 0
                  \/ LET s == Cell(P, Xo - 1, Ay - 1)  t == Cell(P, Xo - 1, Ay)
                     IN  \/ s \in Occ23 /\ t \in Occ23
                         \/ s \in {0, 3} /\ t = 3
      xp    == IF /\ Ay < L /\ Xo > 0 /\ ~agen
                  /\ Cell(P, Xo - 1, Ay - 1) = 0
                  /\ Cell(P, Xo - 1, Ay) = 0
               THEN ScanLeft(P, Xo - 1, Ay)
               ELSE -1
      anear == xp >= 0 /\ 5 * (Xo - xp) <= W
      \* the corner below right is free
      bfree == Bx < W /\ Cell(P, Bx, Yo) = 0
      bgen  == /\ bfree
               /\ \/ Yo = 0
                  \/ LET s == Cell(P, Bx - 1, Yo - 1)  t == Cell(P, Bx, Yo - 1)
                     IN  \/ s \in Occ23 /\ t \in Occ23
                         \/ s \in {0, 3} /\ t = 3
      yp    == IF /\ Bx < W /\ Yo > 0 /\ ~bgen
                  /\ Cell(P, Bx - 1, Yo - 1) = 0
                  /\ Cell(P, Bx, Yo - 1) = 0
               THEN ScanDown(P, Yo - 1, Bx)
               ELSE -1
      bnear == yp >= 0 /\ 5 * (Yo - yp) <= L
      one(c, p) == IF c THEN <<p>> ELSE <<>>
  IN  [k \in Classes |->
        CASE k = "A"   -> one(agen, <<Xo, Ay>>)
          [] k = "A_"  -> one(xp >= 0 /\ anear, <<xp, Ay>>)
          [] k = "E"   -> one(xp >= 0 /\ ~anear, <<xp, Ay>>)
          [] k = "A__" -> one(afree /\ ~agen, <<Xo, Ay>>)
          [] k = "B"   -> one(bgen, <<Bx, Yo>>)
          [] k = "B_"  -> one(yp >= 0 /\ bnear, <<Bx, yp>>)
          [] k = "F"   -> one(yp >= 0 /\ ~bnear, <<Bx, yp>>)
          [] k = "B__" -> one(bfree /\ ~bgen, <<Bx, Yo>>)
          [] k = "C"   -> IF Ay < L THEN CPoints(P, Xo, Bx - 2, Ay) ELSE <<>>
          [] k = "D"   -> IF Bx < W THEN DPoints(P, Yo, Ay - 2, Bx) ELSE <<>>]

(*----------------------------- construction ------------------------------*)
(* A problem is a record                                                   *)
(*   conts : sequence of [W, L] (strip packing: L is the height in force)  *)
(*   items : sequence of [w, l]       rot : BOOLEAN                        *)
(*   strat : sequence of classes      strip : BOOLEAN                      *)
(* A construction state is a record                                        *)
(*   c    number of the container being filled                             *)
(*   rem  remaining item numbers, in sequence order                        *)
(*   P    placements in the container     pts  pending points              *)
(*   cur  current point or <<>>           res  finished containers         *)
(***************************************************************************)
Start(seq) == [c |-> 1, rem |-> seq, P |-> <<>>, pts |-> NoPoints, cur |-> <<0, 0>>,
               res |-> <<>>]

Finished(pb, s) == s.c > Len(pb.conts)

RECURSIVE SumArea(_, _)
SumArea(P, n) == IF n = 0 THEN 0 ELSE P[n].w * P[n].l + SumArea(P, n - 1)
Area(P) == SumArea(P, Len(P))

Full(pb, s) == ~pb.strip /\ Area(s.P) = pb.conts[s.c].W * pb.conts[s.c].L
Closed(pb, s) == s.cur = <<>> \/ s.rem = <<>> \/ Full(pb, s)

Max2(a, b) == IF a >= b THEN a ELSE b

\* oldest pending point of the first class of the strategy with any
FirstClass(strat, pts) ==
  LET K == {k \in DOMAIN strat : pts[strat[k]] # <<>>}
  IN  IF K = {} THEN 0 ELSE CHOOSE k \in K : \A j \in K : k <= j

NextPoint(strat, pts) ==
  LET k == FirstClass(strat, pts)
  IN  IF k = 0 THEN [cur |-> <<>>, pts |-> pts]
      ELSE [cur |-> Head(pts[strat[k]]),
            pts |-> [pts EXCEPT ![strat[k]] = Tail(@)]]

FitsUnrot(pb, s, i) ==
  Fits(pb.conts[s.c].W, pb.conts[s.c].L, s.P, s.cur[1], s.cur[2],
       pb.items[i].w, pb.items[i].l)
FitsRot(pb, s, i) ==
  pb.rot /\ Fits(pb.conts[s.c].W, pb.conts[s.c].L, s.P, s.cur[1], s.cur[2],
                 pb.items[i].l, pb.items[i].w)

\* position in s.rem of the first item that fits at the current point, or 0
FirstFit(pb, s) ==
  LET K == {k \in DOMAIN s.rem : FitsUnrot(pb, s, s.rem[k]) \/ FitsRot(pb, s, s.rem[k])}
  IN  IF K = {} THEN 0 ELSE CHOOSE k \in K : \A j \in K : k <= j

Without(seq, k) == SubSeq(seq, 1, k - 1) \o SubSeq(seq, k + 1, Len(seq))

\* the placement of the k-th remaining item at the current point
PlacementOf(pb, s, k) ==
  LET i == s.rem[k]
      u == FitsUnrot(pb, s, i)
  IN  [i |-> i, x |-> s.cur[1], y |-> s.cur[2],
       w |-> IF u THEN pb.items[i].w ELSE pb.items[i].l,
       l |-> IF u THEN pb.items[i].l ELSE pb.items[i].w]

Appended(pts, g) == [k \in Classes |-> pts[k] \o g[k]]

\* actions of the construction ----------------------------------------------
PlaceItem(pb, s, k) ==
  LET r  == PlacementOf(pb, s, k)
      P2 == Append(s.P, r)
      C  == pb.conts[s.c]
      n  == NextPoint(pb.strat, Appended(s.pts, Generated(C.W, C.L, P2, r)))
  IN  [s EXCEPT !.P = P2, !.rem = Without(@, k), !.cur = n.cur, !.pts = n.pts]

DropPoint(pb, s) ==
  LET n == NextPoint(pb.strat, s.pts) IN [s EXCEPT !.cur = n.cur, !.pts = n.pts]

CloseContainer(pb, s) ==
  [s EXCEPT !.c = @ + 1, !.P = <<>>, !.pts = NoPoints, !.cur = <<0, 0>>,
            !.res = Append(@, s.P)]

Step(pb, s) ==
  IF Closed(pb, s) THEN CloseContainer(pb, s)
  ELSE LET k == FirstFit(pb, s)
       IN  IF k = 0 THEN DropPoint(pb, s) ELSE PlaceItem(pb, s, k)

RECURSIVE Run(_, _)
Run(pb, s) == IF Finished(pb, s) THEN s.res ELSE Run(pb, TLCEval(Step(pb, s)))

\* The solution: for each container the sequence of its placements
Solve(pb, seq) == Run(pb, Start(seq))

(*------------------------------- values ----------------------------------*)
RECURSIVE TopOf(_, _)
TopOf(P, n) == IF n = 0 THEN 0 ELSE Max2(P[n].y + P[n].l, TopOf(P, n - 1))
Height(P) == TopOf(P, Len(P))

\* utilization of a container as <<numerator, denominator>>
Util(strip, C, P) ==
  IF P = <<>> THEN <<0, 1>>
  ELSE <<Area(P), C.W * (IF strip THEN Height(P) ELSE C.L)>>

\* well-formedness of a solution: the feasibility properties -----------------
InBounds(C, r) == r.x >= 0 /\ r.y >= 0 /\ r.w >= 1 /\ r.l >= 1
                  /\ r.x + r.w <= C.W /\ r.y + r.l <= C.L
NoOverlap(P) == \A a, b \in DOMAIN P : a < b => Disjoint(P[a], P[b].x, P[b].y, P[b].w, P[b].l)
Faithful(items, rot, r) == /\ r.i \in DOMAIN items
                           /\ \/ r.w = items[r.i].w /\ r.l = items[r.i].l
                              \/ rot /\ r.w = items[r.i].l /\ r.l = items[r.i].w
AtMostOnce(res) ==
  \A c, d \in DOMAIN res : \A a \in DOMAIN res[c] : \A b \in DOMAIN res[d] :
    (<<c, a>> # <<d, b>>) => res[c][a].i # res[d][b].i
=============================================================================
