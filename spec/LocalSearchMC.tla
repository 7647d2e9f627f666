---------------------------- MODULE LocalSearchMC ----------------------------
(* All objective landscapes over the permutations of 1..N with values        *)
(* 0..MaxV, all acceptance filters given by a threshold, any time limit,     *)
(* any throttle.                                                             *)
EXTENDS LocalSearch
CONSTANTS N, MaxV, WithTime

Perms == {q \in [1..N -> 1..N] : \A i, j \in 1..N : i # j => q[i] # q[j]}
Ident == [i \in 1..N |-> i]

VARIABLES f, ok, sense, maxn, s, seen
vars == <<f, ok, sense, maxn, s, seen>>
Opt == IF sense = "MAX" THEN MaxV ELSE 0

Init == /\ f \in [Perms -> 0..MaxV]
        /\ sense \in {"MAX", "MIN"}
        /\ ok \in {{}, {Ident}} \* the only permutations that may be rejected
        /\ maxn \in 1..NumSwaps(N)
        /\ s = StartSearch(N, sense, Opt, f[Ident])
        /\ seen = {Ident}
Eval == /\ s.why = "run"
        /\ \E late \in (IF WithTime THEN BOOLEAN ELSE {FALSE}) :
             s' = Evaluate(s, N, sense, Opt, Budget(N, TRUE, maxn), f[Candidate(s)],
                           Candidate(s) \notin ok, late)
        /\ seen' = seen \cup {Candidate(s)}
        /\ UNCHANGED <<f, ok, sense, maxn>>
Next == Eval
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the value kept belongs to the node kept and nothing evaluated beats it
BestIsNode == s.best = f[s.node] /\ s.node \in seen
NothingBetter == \A q \in seen \ ok : ~Better(sense, f[q], s.best)
NeverWorse == ~Better(sense, f[Ident], s.best)
LocalOptimum == s.why = "local" =>
   \A i, j \in 1..N : i < j => LET q == Exchange(s.node, <<i, j>>) IN q \in ok \/ ~Better(sense, f[q], s.best)
Ends == <>(s.why # "run")
Improves == [][s'.node # s.node => Better(sense, s'.best, s.best)]_vars
=============================================================================
