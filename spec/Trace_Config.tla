---- MODULE Trace_Config ----
(* C31. e.given / e.rec / e.rec2: options given, recorded, and recorded by the second analysis (tokens; "missing" when not found);
   e.diff: largest relative difference of the two results in 1e-9; e.lat: recorded latitude in 1e-6 degrees; e.argsame: whether the
   options of the caller are as they were; e.pred: predictions, each with its arguments (given), what it echoes, its fields,
   whether t_in is the argument itself, whether t_mpl is (epoch 'python') or holds the instants, and the attribute's warning.       *)
EXTENDS Config, Judge
Set(s) == {s[i] : i \in 1 .. Len(s)}
Given(g) == IF g = <<>> THEN [o \in {} |-> ""] ELSE g
Differs(a, b) == {o \in DOMAIN b : ~(o \in DOMAIN a /\ a[o] = b[o])}
Why(w, a, b) == LET d == Differs(a, b) IN If(d # {}, w \o ToString({<<o, IF o \in DOMAIN a THEN a[o] ELSE "missing", b[o]>> : o \in d}))
PredBad(p) == IF p.err # "" THEN <<"prediction: " \o p.err>> ELSE
     Why("echoed arguments (which, kept, given): ", p.echo, Echo(Given(p.given)))
  \o If(Set(p.fields) # EchoFields(p.two), "fields of the prediction: " \o ToString(Set(p.fields)))
  \o If(~p.tin, "t_in is not the argument")
  \o If(~p.tmpl, "t_mpl")
  \o If(~p.warns, "attribute t_mpl: warning")
ConfBad(e) == IF e.err # "" THEN <<"no result: " \o e.err>> ELSE
     Why("recorded options (which, kept, given): ", e.rec, Recorded(Given(e.given)))
  \o If(e.lat # e.lat0, "latitude")
  \o If(~e.argsame, "options of the caller changed")
  \o (IF e.err2 # "" THEN <<"the record is not accepted: " \o e.err2>> ELSE
        Why("record of the second analysis: ", e.rec2, e.rec) \o If(e.diff > 10, "the record gives another analysis: " \o ToString(e.diff)))
  \o (IF e.pred = <<>> THEN <<>> ELSE PredBad(e.pred[1]) \o (IF Len(e.pred) > 1 THEN PredBad(e.pred[2]) ELSE <<>>))
====
