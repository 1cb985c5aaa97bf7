---- MODULE Trace_Recon ----
(* C12, C13, C25: recorded reconstructions.  Values are integers (1e-8 of the size of the tide), 2000000000 = missing.
   inc:  full = base + sum over the included constituents of (single - base), at every recorded instant
   pts:  the value of every element of a time array is that of its instant alone
   port: predictions of a transported solution                                                                       *)
EXTENDS Recon, Judge
MISSING == 2000000000
Tol == 40
\* PE and SNR of the solution's own parameters and intervals
WithPE(e) == LET tot == FlSum([i \in 1 .. Len(e.rows) |-> Energy(e.rows[i])])
             IN  [i \in 1 .. Len(e.rows) |-> [n |-> e.rows[i].n,
                    pe |-> IF e.exactPE THEN e.rows[i].pe ELSE FlDiv(FlMul(FlOf(100), Energy(e.rows[i])), tot),
                    snr |-> IF e.ci THEN e.rows[i].snr ELSE FlZero]]
Inc(e) == Included(TLCEval(WithPE(e)), e.given, {e.wanted[i] : i \in 1 .. Len(e.wanted)}, e.minSNR, e.minPE, e.ci)
Expect(e, k, inc) == LET b == e.base[k] IN b + FoldLeft(LAMBDA acc, i : IF i \in inc THEN acc + (e.single[i][k] - b) ELSE acc, 0, [i \in 1 .. Len(e.rows) |-> i])
SNRDef(e) == ~e.ci \/ \A i \in 1 .. Len(e.rows) : FlNear(e.rows[i].snr, SNROf(e.rows[i]), -5)
IncBad(e) == LET inc == TLCEval(Inc(e)) IN
  If(~SNRDef(e), "SNR of the solution") \o
  If(Len(e.full) # Len(e.base), "length") \o
  If(Len(e.full) = Len(e.base) /\ \E k \in 1 .. Len(e.full) : ~Near(e.full[k], Expect(e, k, inc), Tol), "included set is not " \o ToString({e.rows[i].n : i \in inc}))

\* e.el: elements [t |-> token, m |-> mark], e.ref: value per token, e.out: recorded series (one or two components)
PtsBad(e) ==
  LET n == Len(e.el)
      bad1(c) == {k \in 1 .. n : IF Missing(e.el[k]) THEN e.out[c][k] # MISSING
                                 ELSE ~Near(e.out[c][k], e.ref[c][e.el[k].t], Tol)}
  IN  If(\E c \in 1 .. Len(e.out) : Len(e.out[c]) # n, "one value per time")
      \o (IF \E c \in 1 .. Len(e.out) : Len(e.out[c]) # n THEN <<>>
          ELSE LET b == UNION {bad1(c) : c \in 1 .. Len(e.out)}
               IN  If(\E k \in b : Missing(e.el[k]), "value at a missing time") \o If(\E k \in b : ~Missing(e.el[k]), "value depends on other times"))

PortBad(e) == If(~( /\ Len(e.got) = Len(e.base)
                    /\ \A k \in 1 .. Len(e.got) :
                         Near(e.got[k], e.base[k] + FoldLeft(LAMBDA acc, i : IF e.names[i] \in {e.kept[j] : j \in 1 .. Len(e.kept)}
                                                     THEN acc + (e.single[i][k] - e.base[k]) ELSE acc, 0, [i \in 1 .. Len(e.names) |-> i]), Tol)),
                 e.form \o ": prediction of the transported solution differs")
ReconBad(e) == IF ~e.ok THEN <<"no result: " \o e.err>>
               ELSE CASE e.k = "inc" -> IncBad(e) [] e.k = "pts" -> PtsBad(e) [] e.k = "port" -> PortBad(e)
====
