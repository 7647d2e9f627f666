------------------------------- MODULE Settings ------------------------------
(* Which settings are accepted, and what they mean.                          *)
(* An option's value is given by a code: "absent", "none" (None), or as in   *)
(* the sets below; all other codes stand for values that are not allowed.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RotationCodes == {"absent", "none", "true", "false", "int", "str"}
TimeCodes == {"absent", "t1", "t2", "t60", "tbig", "zero", "neg", "float", "none", "str"}
WorkersCodes == {"absent", "none", "w1", "w2", "w3", "w4", "zero", "neg", "float", "str"}
RotationOk(c) == c \in {"absent", "none", "true", "false"}
TimeOk(c) == c \in {"absent", "t1", "t2", "t60", "tbig"}
WorkersOk(c) == c \in {"absent", "none", "w1", "w2", "w3", "w4"}
Rotation(c) == c # "false"                                    \* default: on
Time(c) == CASE c = "t1" -> 1 [] c = "t2" -> 2 [] c = "tbig" -> 100000 [] OTHER -> 60  \* default: 60
Workers(c) == CASE c = "w2" -> 2 [] c = "w3" -> 3 [] c = "w4" -> 4 [] OTHER -> 1

TypeCodes == {"absent", "none", "html", "image", "bad", "nonstr"}
PathCodes == {"absent", "none", "ok", "missing", "file", "nonstr"}
FormatCodes == {"absent", "none", "pdf", "png", "jpeg", "webp", "svg", "bad", "nonstr"}
NameCodes == {"absent", "none", "ok", "len45", "len46", "empty", "badchar", "nonstr"}
SizeCodes == {"absent", "none", "pos", "zero", "neg", "float"}
ShowCodes == {"absent", "true", "false", "other"}
FigCodes == {"absent", "empty", "other", "dict"}
ExportCodes == {"absent", "other", "dict"}
Formats == {"pdf", "png", "jpeg", "webp", "svg"}

\* e : [type, path, format, name, width, height]
ExportOk(e, kaleido) ==
  /\ e.type \in {"html", "image"}
  /\ e.path = "ok"
  /\ e.type = "image" => (e.format \in Formats /\ kaleido)
  /\ e.name \in {"absent", "none", "ok", "len45"}
  /\ e.width \in {"absent", "none", "pos"} /\ e.height \in {"absent", "none", "pos"}
\* f : [fig, export, show, e]
FigureOk(f, plotly, kaleido) ==
  CASE f.fig \in {"absent", "empty"} -> TRUE
    [] f.fig = "other" -> FALSE
    [] OTHER ->
         \* a dictionary without entries is "empty"
         /\ plotly
         /\ f.export \in {"absent", "dict"}
         /\ f.export = "dict" => ExportOk(f.e, kaleido)
         /\ f.show \in {"absent", "true", "false"}

\* versions as <<major, minor, patch>>; <<>> : not installed
Less(a, b) == \/ a[1] < b[1]
              \/ a[1] = b[1] /\ a[2] < b[2]
              \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Between(v, lo, hi) == v # <<>> /\ ~Less(v, lo) /\ Less(v, hi)
PlotlyOk(v) == Between(v, <<5, 14, 0>>, <<6, 0, 0>>)
KaleidoOk(v) == Between(v, <<0, 2, 1>>, <<0, 3, 0>>)

\* s : [cls ("HyperPack" / "PointGenPack"), kind ("dict" / "other"), rotation, time, workers, f]
Accepted(s, plotly, kaleido) ==
  /\ s.kind = "dict"
  /\ RotationOk(s.rotation)
  /\ s.cls = "HyperPack" => (TimeOk(s.time) /\ WorkersOk(s.workers))
  /\ FigureOk(s.f, PlotlyOk(plotly), KaleidoOk(kaleido))

\* a strategy: kind and element codes 1..10, 0 another text, -1 not a text
StrategyOk(x) == /\ x.kind = "tuple"
                 /\ \A n \in DOMAIN x.els : x.els[n] \in 1..10
                 /\ \A m, n \in DOMAIN x.els : x.els[m] = x.els[n] => m = n
=============================================================================
