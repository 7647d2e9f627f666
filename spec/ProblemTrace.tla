---------------------------- MODULE ProblemTrace -----------------------------
(* Validates recorded histories of operations on real instances.             *)
(* Case: st   - sequence of observed states                                  *)
(*         [items, conts, strip, h, minh, sol (0: none), obj (0: none),      *)
(*          set (settings), strat, caller (the caller's data)]               *)
(*       steps - steps[n] leads from st[n] to st[n+1]:                       *)
(*         [op (with arguments), err, fresh (result of a new instance with   *)
(*          the same data, 0 if not compared), handles - sequence of <<what  *)
(*          was read earlier, what it is now>>, olds likewise for the        *)
(*          caller's own data]                                               *)
EXTENDS ProblemState, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE k
Init == k \in DOMAIN Cases
Next == FALSE /\ k' = k
Spec == Init /\ [][Next]_k
C == Cases[k]
St == C.st
N == DOMAIN C.steps
Op(n) == C.steps[n].op
Ok(n) == C.steps[n].err = "none"
Data(s) == [items |-> s.items, conts |-> s.conts, strip |-> s.strip, h |-> s.h, minh |-> s.minh]
Sets(s) == <<s.items, s.conts>>
NoError == C.err = "none"
InOps(n, S) == Op(n).op \in S
Matches(n) ==
  IF InOps(n, Removing) THEN Loosely(Data(St[n]), Op(n), Data(St[n + 1]), Ok(n))
  ELSE LET r == Apply(Data(St[n]), Op(n))
       IN  r.ok = Ok(n) /\ r.d = Data(St[n + 1])
Cleared(n) == St[n + 1].sol = 0 /\ St[n + 1].obj = 0

\* P07
AlwaysValid == \A n \in DOMAIN St : ValidData(Data(St[n]))
Operations == \A n \in N : InOps(n, Dictionary \cup Removing) => Matches(n)
ErrorKinds == \A n \in N : InOps(n, Dictionary \cup Removing) =>
   C.steps[n].err \in {"none", "ItemsError", "ContainersError", "DimensionsError", "KeyError"}
NoStaleSolution == \A n \in N :
   /\ ~InOps(n, Solving \cup {"cut"}) /\ Sets(St[n]) # Sets(St[n + 1]) => Cleared(n)
   /\ St[n + 1].sol # 0 /\ ~InOps(n, Solving \cup {"cut"}) => St[n + 1].sol = St[n].sol
Together == \A n \in DOMAIN St : St[n].sol = 0 <=> St[n].obj = 0
UsesCurrentData == \A n \in N :
   InOps(n, Solving) /\ Ok(n) => (St[n + 1].sol # 0 /\ C.steps[n].fresh \in {0, St[n + 1].sol})
\* P08
StripFixed == St[1].strip => \A n \in DOMAIN St : St[n].conts = St[1].conts /\ St[n].strip
StripInitial == St[1].strip => (St[1].h = 10 * St[1].conts[1][2] /\ St[1].minh = 0)
HeightsValid == \A n \in DOMAIN St : ValidHeights(Data(St[n]))
HeightRules == St[1].strip => \A n \in N :
   /\ InOps(n, Heights) => Matches(n)
   /\ InOps(n, {"height", "minheight", "delheight"}) =>
        C.steps[n].err \in {"none", "ContainersError", "DimensionsError"}
   \* nothing else changes the heights, except that searches lower the height
   /\ ~InOps(n, Heights) => St[n + 1].minh = St[n].minh
   /\ ~InOps(n, Heights \cup {"ls", "hs"}) => St[n + 1].h = St[n].h
   /\ InOps(n, {"ls", "hs"}) => St[n + 1].h <= St[n].h
StripLocked == St[1].strip => \A n \in N :
   (InOps(n, Dictionary \cup Removing) /\ "t" \in DOMAIN Op(n) /\ Op(n).t = "conts") => Matches(n)
\* P09
SolvingKeeps == \A n \in N : InOps(n, Solving \cup Passive) =>
   LET r == Apply(Data(St[n]), Op(n))
   IN  /\ r.ok = Ok(n)
       /\ Sets(r.d) = Sets(St[n + 1])
       /\ St[n + 1].minh = St[n].minh
       /\ InOps(n, Solving) => St[n + 1].set = St[n].set
       /\ InOps(n, Solving \cup {"mutate", "read"}) => St[n + 1].strat = St[n].strat
CallerKeeps == \A n \in N : \A e \in Range(C.steps[n].olds) : e[1] = e[2]
HandlesKeep == \A n \in N : \A e \in Range(C.steps[n].handles) : e[1] = e[2]
PassiveKeeps == \A n \in N : InOps(n, {"mutate", "read"}) => St[n + 1] = St[n]
\* P24
Kept(t, n) == Get(Data(St[n]), t)
ReadsTrue == \A n \in N : InOps(n, {"read"}) =>
   LET o == Op(n) IN
   /\ C.steps[n].err = "none"
   /\ \A v \in Range(o.views) : v.q = Kept(v.t, n)
   /\ \A x \in Range(o.lens) : x[2] = Len(Kept(x[1], n))
   /\ \A x \in Range(o.has) : \A m \in 3..6 : x[m] <=> x[2] \in Ids(Kept(x[1], n))
   /\ ~\E x \in Range(o.no) : x   \* other values are no ids
   /\ \A s \in Range(o.seqs) :
        s.q = [m \in DOMAIN s.ids |-> Kept(s.t, n)[At(Kept(s.t, n), s.ids[m])]]
   /\ o.sol = St[n].sol /\ o.copy = St[n].sol /\ o.clone = St[n].sol
ReadsPassive == \A n \in N : InOps(n, {"read"}) => St[n + 1] = St[n]
\* P25: a solving operation (op.of) was interrupted while it constructed or
\* evaluated solutions; badsolve: a sequence with an unknown id
CutKeeps == \A n \in N : InOps(n, {"cut"}) =>
   LET r == Apply(Data(St[n]), [Op(n) EXCEPT !.op = Op(n).of])
   IN  /\ C.steps[n].err = Op(n).with
       /\ r.ok /\ Sets(r.d) = Sets(St[n + 1])
       /\ St[n + 1].minh = St[n].minh /\ St[n + 1].h <= St[n].h
       /\ Op(n).of = "solve" => St[n + 1].h = St[n].h /\ St[n + 1].sol = St[n].sol
       /\ St[n + 1].set = St[n].set /\ St[n + 1].strat = St[n].strat
BadKeeps == \A n \in N : InOps(n, {"badsolve"}) =>
   C.steps[n].err = "KeyError" /\ St[n + 1] = St[n]
\* P26
StrategyDefault == St[1].strat = C.default
StrategyRules == \A n \in N :
   /\ InOps(n, Strategies) =>
        LET good == Apply(Data(St[n]), Op(n)).ok IN
        /\ C.steps[n].err = (IF good THEN "none" ELSE "PotentialPointsError")
        /\ St[n + 1] = [St[n] EXCEPT !.strat = IF good THEN Op(n).want ELSE @]
   /\ ~InOps(n, Strategies) => St[n + 1].strat = St[n].strat
\* P17
Ordered == \A n \in N : InOps(n, Ordering) =>
   /\ Matches(n)
   /\ Sets(St[n]) # Sets(St[n + 1]) => Cleared(n)
   /\ C.steps[n].err \in {"none", "NotImplementedError"}
   /\ St[n + 1].set = St[n].set /\ St[n + 1].strat = St[n].strat
=============================================================================
