---------------------------- MODULE SettingsTrace ----------------------------
(* Validates observed decisions on settings and strategies.                  *)
(* Case, by its field what:                                                  *)
(*  "opt"   s, plotly, kaleido, err                                          *)
(*  "eff"   a history on one instance: seq of [s, err, rot, evals, procs];   *)
(*          evals: candidates a search evaluates when each takes half a      *)
(*          second, procs: processes a hypersearch over 12 strategies        *)
(*          starts; -1: not observed                                         *)
(*  "fig"   plotly, raised: create_figure refused to work                    *)
(*  "strat" x, err, before, after                                            *)
(*  "domain" codes - sequence of sets of tried <<option, code>> pairs        *)
EXTENDS Settings, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE k
Init == k \in DOMAIN Cases
Next == FALSE /\ k' = k
Spec == Init /\ [][Next]_k
C == Cases[k]
NoError == C.what # "error"
Decided == C.what = "opt" =>
  C.err = (IF Accepted(C.s, C.plotly, C.kaleido) THEN "none" ELSE "SettingsError")
HistoryDecided == C.what = "eff" => \A n \in DOMAIN C.seq :
  C.seq[n].err = (IF Accepted(C.seq[n].s, C.plotly, C.kaleido) THEN "none" ELSE "SettingsError")
Effective == C.what = "eff" => \A n \in DOMAIN C.seq : LET x == C.seq[n] IN
  x.err = "none" =>
    /\ x.rot = Rotation(x.s.rotation)
    /\ x.evals = -1 \/ x.evals = IF x.s.time = "tbig" THEN Time("tbig") \div 1000 ELSE 2 * Time(x.s.time)
    /\ x.procs = -1 \/ x.procs = (IF Workers(x.s.workers) = 1 THEN 0 ELSE Workers(x.s.workers))
FigureVersions == C.what = "fig" => (C.raised <=> ~PlotlyOk(C.plotly))
StrategyDecided == C.what = "strat" =>
  /\ C.err = (IF StrategyOk(C.x) THEN "none" ELSE "PotentialPointsError")
  /\ C.after = (IF StrategyOk(C.x) THEN C.x.els ELSE C.before)
\* every code of every option was tried
Tried(o) == {C.codes[o][n] : n \in DOMAIN C.codes[o]}
Covered == C.what = "domain" =>
  /\ Tried("rotation") = RotationCodes /\ Tried("time") = TimeCodes
  /\ Tried("workers") = WorkersCodes /\ Tried("type") = TypeCodes /\ Tried("path") = PathCodes
  /\ Tried("format") = FormatCodes /\ Tried("name") = NameCodes
  /\ Tried("width") = SizeCodes /\ Tried("height") = SizeCodes /\ Tried("show") = ShowCodes
  /\ Tried("fig") = FigCodes /\ Tried("export") = ExportCodes
=============================================================================
