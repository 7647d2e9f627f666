----------------------------- MODULE ReportTrace -----------------------------
(* Validates what log_solution and create_figure say about a solution.       *)
(* Case: n (number of items), conts ([W, L] in order; strip: L unused),      *)
(*  sol : per container a sequence of <<item, x, y, w, l>>, strip, minh      *)
(*  log : [none - nothing was returned, pct (1/10000 percent), conts -       *)
(*    sequence of [c, W, L, util (1/10000 percent), mh (-1: not reported)],  *)
(*    rest - reported items] or absent when has.log is FALSE                 *)
(*  figs : [shown - sequence of figures shown, written - sequence of         *)
(*    [c, name - it is <file_name>__<id>.<format> in the folder, fig]];      *)
(*    a figure is [rects - sequence of <<label, x0, y0, x1, y1>>] with label *)
(*    the item, 0 no label, -1 unknown text; title - the container (0: other *)
(*    text), hover - points of the traces, traces - their number, axes - the *)
(*    whole numbers each axis covers; want : [show, export, empty]           *)
(*  kept : the operation changed nothing; what : "log" or "fig"              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE k
Init == k \in DOMAIN Cases
Next == FALSE /\ k' = k
Spec == Init /\ [][Next]_k
C == Cases[k]
Abs(x) == IF x < 0 THEN -x ELSE x
Range(q) == {q[j] : j \in DOMAIN q}
NoError == C.err = "none"
NC == Len(C.conts)
NoSol == Len(C.sol) = 0
RECURSIVE Area(_, _)
Area(q, j) == IF j > Len(q) THEN 0 ELSE q[j][4] * q[j][5] + Area(q, j + 1)
Top(c) == LET T == {C.sol[c][j][3] + C.sol[c][j][5] : j \in DOMAIN C.sol[c]} \cup {0}
          IN  CHOOSE t \in T : \A u \in T : t >= u
\* the height shown: the one of the solution, not below the minimum height
Height(c) == IF C.strip THEN (IF Top(c) > C.minh THEN Top(c) ELSE C.minh) ELSE C.conts[c].L
RECURSIVE Count(_)
Count(c) == IF c > NC THEN 0 ELSE Len(C.sol[c]) + Count(c + 1)
Placed == UNION {{C.sol[c][j][1] : j \in DOMAIN C.sol[c]} : c \in 1..NC}

\* P18
Log == C.log
LogPresent == C.what = "log" => (Log.none <=> NoSol) /\ (Log.warned <=> NoSol)
HasLog == C.what = "log" /\ ~NoSol /\ ~Log.none
LogPercent == HasLog => 2 * Abs(Log.pct * C.n - Count(1) * 1000000) <= C.n + 2
LogContainers == HasLog =>
  /\ Len(Log.conts) = NC
  /\ \A c \in 1..NC :
       /\ Log.conts[c].c = c
       /\ Log.conts[c].W = C.conts[c].W
       /\ Log.conts[c].L = Height(c)
LogUtil == HasLog => \A c \in 1..NC :
  LET full == C.conts[c].W * Height(c)
  IN  IF full = 0 THEN Log.conts[c].util = 0
      ELSE 2 * Abs(Log.conts[c].util * full - Area(C.sol[c], 1) * 1000000) <= full + 2
LogHeight == HasLog => \A c \in 1..NC : Log.conts[c].mh = (IF C.strip THEN Top(c) ELSE -1)
LogRest == HasLog => Log.rest = SelectSeq([j \in 1..C.n |-> j], LAMBDA j : j \notin Placed)
LogSame == HasLog => Log.returned
NothingChanged == C.kept

\* P19
\* no two items of a solution are equal, a set of rectangles determines the figure
Rects(c) == {<<e[1], e[2], e[3], e[2] + e[4], e[3] + e[5]>> : e \in Range(C.sol[c])}
            \cup {<<0, 0, 0, C.conts[c].W, Height(c)>>}
Corners(c) == UNION {{<<e[2], e[3]>>, <<e[2] + e[4], e[3]>>, <<e[2], e[3] + e[5]>>,
                      <<e[2] + e[4], e[3] + e[5]>>} : e \in Range(C.sol[c])}
Covers(span, m) == span[1] <= 0 /\ span[2] >= m
Depicts(fig, c) ==
  /\ Range(fig.rects) = Rects(c) /\ Len(fig.rects) = Len(C.sol[c]) + 1
  /\ fig.title = c
  /\ Range(fig.hover) = Corners(c) /\ fig.traces = Len(C.sol[c])
  /\ fig.axes # <<>> => Covers(fig.axes[1], C.conts[c].W) /\ Covers(fig.axes[2], Height(c))
F == C.figs
Writes == C.what = "fig" =>
  IF NoSol \/ ~C.want.export THEN Len(F.written) = 0
  ELSE /\ Len(F.written) = NC
       /\ {F.written[j].c : j \in DOMAIN F.written} = 1..NC
       /\ \A j \in DOMAIN F.written : F.written[j].name
WrittenTrue == C.what = "fig" => \A j \in DOMAIN F.written :
  F.written[j].c \in 1..NC /\ Depicts(F.written[j].fig, F.written[j].c)
Shows == C.what = "fig" =>
  IF NoSol \/ ~C.want.show THEN Len(F.shown) = 0
  ELSE Len(F.shown) = NC /\ \A c \in 1..NC : Depicts(F.shown[c].fig, c)
Size == C.what = "fig" => \A j \in DOMAIN F.written :
  F.written[j].size = <<0, 0>> \/ F.written[j].size = C.want.size
=============================================================================
