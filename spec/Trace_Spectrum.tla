---- MODULE Trace_Spectrum ----
(* C33. e.n, e.q (sampling interval in quarters of an hour), e.cu, e.cv: the series; e.near: the frequencies (in cycles per record) nearest
   to the constituents; e.kmax: highest frequency there is an estimate of; e.uu, e.vv, e.uv: densities by band ([0, 9999]: NaN).   *)
EXTENDS Spectrum, Judge
Dt(e) == FlDiv(FlOf(e.q), FlOf(4))
Most(c, h) == FoldLeft(LAMBDA a, k : FlMax(a, FlMax(FlAbs(c[k + 1][1]), FlAbs(c[k + 1][2]))), FlZero, [k \in 1 .. h |-> k])
Nan(x) == x = FlNaN
\* what rounding can do to a density
Dust(e, c, d) == LET h == e.n \div 2 IN FlMul(FlPow10(0 - 5), FlMul(FlOf(e.n), FlMul(Dt(e), FlMul(Most(c, h), Most(d, h)))))
Matches(e, c, d, b, got, dust) ==
  LET near == {e.near[i] : i \in 1 .. Len(e.near)}
      base == BandBins(b, e.n, e.q, e.kmax)
      fits(s) == IF s = {} THEN Nan(got)
                 ELSE /\ ~Nan(got)
                      /\ FlNearTo(got, MeanOver(LAMBDA k : Density(c, d, e.n, Dt(e), k), s), FlAdd(MeanOver(LAMBDA k : Ceiling(c, d, e.n, Dt(e), k), s), dust), 0 - 5)
  IN  fits(base \ near) \/ fits((base \cup Next1(b, e.n, e.q, e.kmax)) \ near)
Wrong(e, c, d, got) == LET dust == TLCEval(Dust(e, c, d)) IN
   IF Len(got) # Len(Bands) THEN {0} ELSE {b \in 1 .. Len(Bands) : ~Matches(e, c, d, b, got[b], dust)}
Say(w, s) == If(s # {}, w \o ": bands " \o ToString(s))
SpecBad(e) == IF e.err # "" THEN <<e.err>> ELSE
   Say("u", Wrong(e, e.cu, e.cu, e.uu)) \o (IF e.two THEN Say("v", Wrong(e, e.cv, e.cv, e.vv)) \o Say("u and v", Wrong(e, e.cu, e.cv, e.uv)) ELSE <<>>)
   \o If(e.edges # Bands, "edges of the bands")
====
