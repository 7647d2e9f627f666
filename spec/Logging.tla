------------------------------- MODULE Logging -------------------------------
(* What the logger "hyperpack" tells a user about an operation.              *)
(* Record r: op; err - class of the exception that reached the caller, or    *)
(* "none"; package - it is one of the library's own; lines - the messages,   *)
(* as <<level, contains the text of the exception>>; further fields by op:   *)
(*  "orient", "hs" (a hypersearch, which orients the items first)            *)
(*            o ("none", "wide", "long", "bad"), rot - rotation is on        *)
(*  "log"     sol - there is a solution, same - the text returned was logged *)
(*  "figure"  sol, show, export - what is asked for; broken - no file can be *)
(*            written; kept - the solution is as it was                      *)
(*  "workers" n - workers asked for, cpus                                    *)
(*  "mp"      a multi process hypersearch; workers - those that failed or    *)
(*            logged something, as <<"none" / "raise" / "memory" / "die",    *)
(*            logged an error, with the text of its exception>>              *)
EXTENDS Integers, Sequences
Lines(r) == {r.lines[j] : j \in DOMAIN r.lines}
Levels(r) == {x[1] : x \in Lines(r)}
Ok(r) == r.err = "none"
Workers(r) == {r.workers[j] : j \in DOMAIN r.workers}
Failed(r) == {x \in Workers(r) : x[1] # "none"}

\* every error of the library is logged as such, with its text
ErrorLogged(r) == r.package => <<"ERROR", TRUE>> \in Lines(r)
\* what succeeds is not reported as an error
NoFalseError(r) == Ok(r) /\ r.op # "mp" => Levels(r) \cap {"ERROR", "CRITICAL"} = {}

\* what was asked for and not done is logged as a warning
Skipped(r) ==
  CASE r.op \in {"orient", "hs"} -> r.o # "none" /\ (~r.rot \/ r.o = "bad")
    [] r.op = "log" -> ~r.sol
    [] r.op = "figure" -> ~r.sol \/ (~r.show /\ ~r.export)
    [] r.op = "workers" -> r.n > r.cpus
    [] OTHER -> FALSE
Warning(r) == r.op \in {"orient", "hs", "log", "figure", "workers"} /\ Ok(r) =>
  ("WARNING" \in Levels(r) <=> Skipped(r))
Told(r) == r.op = "log" => Ok(r) /\ (r.sol => r.same)

\* figures that can't be written
Exports(r) == r.op = "figure" =>
  /\ r.err = (IF r.sol /\ r.export /\ r.broken THEN "FigureExportError" ELSE "none")
  /\ r.kept

\* workers that fail
WorkersTold(r) == r.op = "mp" =>
  /\ \A x \in Workers(r) : (x[1] \in {"raise", "memory"} => x[2] /\ x[3])
                           /\ (x[1] = "none" => ~x[2])
  /\ r.err \in {"none", "MultiProcessError"}
  /\ ("ERROR" \in Levels(r) <=> Failed(r) # {})
=============================================================================
