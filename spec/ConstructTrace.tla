--------------------------- MODULE ConstructTrace ---------------------------
(* Runs the construction of Packing.tla, one action per step, on recorded   *)
(* problems and compares the outcome with the solutions recorded from the   *)
(* implementation.  IOEnv.CASES names the JSON file of recorded cases       *)
(*  [id, pb : [conts, items, rot, strat, strip], seq, sol, util]            *)
(* sol : per container the placements <<i, x, y, w, l>>, in any order;      *)
(* util: per container the reported value times width*length*1000           *)
(*       (strip: width*height reached*1000), rounded to an integer.         *)
EXTENDS Packing, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES k, s
vars == <<k, s>>

Init == \E n \in DOMAIN Cases : k = n /\ s = Start(Cases[n].seq)

pb == Cases[k].pb
TPlace == /\ ~Finished(pb, s) /\ ~Closed(pb, s)
          /\ FirstFit(pb, s) # 0
          /\ s' = PlaceItem(pb, s, FirstFit(pb, s)) /\ UNCHANGED k
TDrop  == /\ ~Finished(pb, s) /\ ~Closed(pb, s)
          /\ FirstFit(pb, s) = 0
          /\ s' = DropPoint(pb, s) /\ UNCHANGED k
TClose == /\ ~Finished(pb, s) /\ Closed(pb, s)
          /\ s' = CloseContainer(pb, s) /\ UNCHANGED k
Next == TPlace \/ TDrop \/ TClose
Spec == Init /\ [][Next]_vars

AsSet(P) == {<<P[a].i, P[a].x, P[a].y, P[a].w, P[a].l>> : a \in DOMAIN P}
SolSet(q) == {q[a] : a \in DOMAIN q}

NoError == Cases[k].err = "none"
\* every placement recorded is the one of the construction
ConformsSolution ==
  Finished(pb, s) =>
    /\ Len(Cases[k].sol) = Len(s.res)
    /\ \A c \in DOMAIN s.res : AsSet(s.res[c]) = SolSet(Cases[k].sol[c])
                               /\ Len(Cases[k].sol[c]) = Len(s.res[c])
\* every value recorded is the utilization of the constructed container
ConformsUtil ==
  Finished(pb, s) =>
    \A c \in DOMAIN s.res : Cases[k].util[c] = 1000 * Area(s.res[c])

\* the specification itself is feasible
SpecSafe ==
  /\ ~Finished(pb, s) =>
       /\ \A a \in DOMAIN s.P : InBounds(pb.conts[s.c], s.P[a]) /\ Faithful(pb.items, pb.rot, s.P[a])
       /\ NoOverlap(s.P)
       /\ \A q \in Classes : \A a \in DOMAIN s.pts[q] :
            s.pts[q][a][1] \in 0..(pb.conts[s.c].W - 1) /\ s.pts[q][a][2] \in 0..(pb.conts[s.c].L - 1)
  /\ Finished(pb, s) => AtMostOnce(s.res)
=============================================================================
