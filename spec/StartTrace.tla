----------------------------- MODULE StartTrace -----------------------------
(* Multi process hypersearches with each way of starting processes (fork,    *)
(* spawn, forkserver), unobserved: what they end with is judged by the plain *)
(* solution and by the searches of every single strategy (alone), made on    *)
(* fresh instances.                                                          *)
(* Case: strip, workers, opt, v0, fp0, h, minh, fault : "none", "some" (the  *)
(*  first strategy) or "all"; bad : failing strategies; alone : sequence of  *)
(*  [v, fp, full]; fin : [raised, v, fp, st (0: plain), full, left, clean,   *)
(*  h, minh]                                                                 *)
EXTENDS Integers, Sequences, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE k
Init == k \in DOMAIN Cases
Next == FALSE /\ k' = k
Spec == Init /\ [][Next]_k
C == Cases[k]
Bad == {C.bad[j] : j \in DOMAIN C.bad}
Good == (DOMAIN C.alone) \ Bad
Elig(s) == ~C.strip \/ C.alone[s].full \/ C.minh > 0
Ok == C.err = "none" /\ ~C.fin.raised

NoError == C.err = "none"
ErrorIffAllFailed == C.err = "none" => (C.fin.raised <=> C.fault = "all")
NoPartialResult == (C.err = "none" /\ C.fin.raised) => C.fin.clean
NoneLeft == C.err = "none" => C.fin.left = 0
\* never worse than the plain solution, and nothing of a failed search
Sound ==
  Ok => /\ C.fin.v >= C.v0
        /\ C.fin.st \in Good \cup {0}
        /\ C.fin.st = 0 => C.fin.fp = C.fp0
        /\ (C.strip /\ C.minh = 0) => (C.fin.full \/ C.fin.fp = C.fp0)
\* bin packing: the best of all strategies, each searched independently
BestOfAll ==
  (Ok /\ ~C.strip) =>
    /\ C.fin.st > 0 => C.fin.fp = C.alone[C.fin.st].fp
    /\ C.fault = "none" =>
         \/ C.fin.v >= C.opt
         \/ \A s \in Good : C.fin.v >= C.alone[s].v
\* strip packing: later searches of a worker depend on its earlier ones
BestOfFirst ==
  (Ok /\ C.strip /\ C.fault = "none" /\ Elig(1)) => C.fin.v >= C.alone[1].v \/ C.fin.v >= C.opt
HeightKept == (C.err = "none" /\ C.strip) => C.fin.h = C.h /\ C.fin.minh = C.minh
=============================================================================
