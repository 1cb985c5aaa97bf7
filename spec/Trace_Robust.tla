---- MODULE Trace_Robust ----
(* C16.  opt: the weighted misfit (sum of w^2 r^2 with the reported weights) at the reported solution and one step along every
   coordinate, and the range of the weights;  con: robust analysis of contaminated data beside the ordinary analysis without the
   bad samples;  cln: robust and ordinary analyses of the same clean data.  tol: from the noise of the data, in units of Obs.   *)
EXTENDS Trace_Opt, Obs
RangeBad(e) == If(e.nw # e.retained, "number of weights") \o If(~(e.wmin >= 0 /\ e.wmax <= 1000000), "weights outside [0, 1]")
Apart(a, b, tol) ==
  IF NamesOf(a) # NamesOf(b) THEN <<"set of constituents">> ELSE
  LET off == {n \in NamesOf(a) : ~ParSame(a.two, Par(a, n), Par(b, n), tol)} IN
  If(off # {}, "parameters of " \o ToString(off)) \o If(~SeqNear(a.mean, b.mean, tol), "mean") \o If(~SeqNear(a.slope, b.slope, 4 * tol), "slope")
Tag(p, s) == [i \in 1 .. Len(s) |-> p \o ": " \o s[i]]
RobustBad(e) ==
  IF ~e.ok THEN <<"no result: " \o e.err>> ELSE
  RangeBad(e) \o (CASE e.k = "opt" -> (LET b == {i \in 1 .. Len(e.dirs) : Not(e.dirs[i])}
                                       IN  If(b # {}, "weighted misfit not minimal along " \o ToString({e.dirs[i].n : i \in b})))
                    [] e.k = "con" -> Tag("gross errors", Apart(e.r, e.o, e.tol))
                    [] e.k = "cln" -> Tag("clean data", Apart(e.r, e.o, e.tol)))
====
