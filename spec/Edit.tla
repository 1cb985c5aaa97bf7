---- MODULE Edit ----
(* Editing of the samples before an analysis.  A sample is [t |-> time in ticks, tm, um, vm |-> marks]; a mark is "ok" or
   says how the value is marked as missing.  Only whether a mark is "ok" may matter.                                     *)
EXTENDS Num
TimeOk(s) == s.tm = "ok"
DataOk(s, two) == s.um = "ok" /\ (two => s.vm = "ok")
Timed(ss) == SelectSeq(ss, TimeOk)
Kept(ss, two) == SelectSeq(ss, LAMBDA s : TimeOk(s) /\ DataOk(s, two))
Even(ss) == \A i \in 1 .. Len(ss) - 2 : ss[i + 1].t - ss[i].t = ss[i + 2].t - ss[i + 1].t
\* the samples that define the record: all with a valid time if these are evenly spaced, else the retained ones
Record(ss, two) == LET td == Timed(ss) IN IF Even(td) THEN td ELSE Kept(ss, two)
TwiceRef(ss, two) == LET r == Record(ss, two) IN r[1].t + r[Len(r)].t
Span(ss, two) == LET r == Record(ss, two) IN r[Len(r)].t - r[1].t
====
