---- MODULE Trace_Calendar ----
(* C05.  e.reps: the same instants in several representations; each has epoch (or calendar: k = "none"), the supplied values
   (civil instants, or <<days, ms>> since the epoch) of some elements, the day numbers the code reports for them (<<day, ms>>,
   in 1/8 ms), the reference time of an analysis, its abstract solution, and predictions.                                     *)
EXTENDS Obs, Calendar, FiniteSets, Judge
Tol == 100
Time(r, x) == IF r.ep.k = "none" THEN OfCivil(x) ELSE Since(x, r.ep)
NearMs(got, want) == LET d == got[1] - want[1] IN Abs(d) <= 1 /\ Near(d * MsDay + (got[2] - want[2]), 0, 1)
SameSol(a, b) == /\ NamesOf(a) = NamesOf(b) /\ SeqNear(a.mean, b.mean, Tol) /\ SeqNear(a.slope, b.slope, Tol)
                 /\ \A n \in NamesOf(a) : ParSame(a.two, Par(a, n), Par(b, n), Tol)
CalBad(e) == IF ~e.ok THEN <<"no result: " \o e.err>> ELSE
  LET R == 1 .. Len(e.reps)
      b1 == {i \in R : \E k \in 1 .. Len(e.reps[i].val) : ~NearMs(e.reps[i].mpl[k], Time(e.reps[i], e.reps[i].val[k]))}
      \* reference time: midway between the first and the last instant
      b2 == {i \in R : LET r == e.reps[i]  a == Time(r, r.ends[1])  b == Time(r, r.ends[2])
                           twice == Norm(<<a[1] + b[1], a[2] + b[2]>>)  got == Norm(<<2 * r.ref[1], 2 * r.ref[2]>>)
                       IN  ~(Abs(got[1] - twice[1]) <= 1 /\ Near((got[1] - twice[1]) * MsDay + got[2] - twice[2], 0, 3))}
      b3 == {i \in R : ~SameSol(e.reps[i].obs, e.reps[1].obs)}
      b4 == {i \in R : ~SeqNear(e.reps[i].h, e.reps[1].h, Tol)}
      names(s) == ToString({e.reps[i].form : i \in s})
  IN If(b1 # {}, "day numbers of " \o names(b1)) \o If(b2 # {}, "reference time of " \o names(b2))
     \o If(b3 # {}, "analysis differs for " \o names(b3)) \o If(b4 # {}, "prediction differs for " \o names(b4))
====
