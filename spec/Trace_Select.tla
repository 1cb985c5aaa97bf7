---- MODULE Trace_Select ----
(* C07: the constituents of a recorded analysis.  thr in 1e-10 cycles per hour (at least 3 units from every tabulated
   separation unless it ties one exactly: e.tie); frequencies at the reference time as four limbs (units of 1e-16 cycle per hour, base 10^4, little-endian).  *)
EXTENDS Tide, Select, Judge
Df == TLCEval([c \in {k \in 1 .. NConst : Tab[k].df10 # 0} |-> Tab[c].df10])
Tol1 == 3000                                      \* 3e-13 cycles per hour
FrClose(v, w) == LET d == FrCarry(<<v[1] - w[1] + Tol1, v[2] - w[2], v[3] - w[3], v[4] - w[4]>>) IN d[4] = 0 /\ d[3] = 0 /\ d[2] = 0 /\ d[1] <= 2 * Tol1
Idx(n) == CHOOSE c \in 1 .. NConst : Tab[c].name = n
NameSet(S) == {Tab[c].name : c \in S}
SelectBad(e) == IF ~e.ok THEN <<"no result: " \o e.err>> ELSE
  LET sel == IF e.auto THEN NameSet(Auto(Df, e.thr)) ELSE RangeOf(e.list)
      want == TLCEval(All(sel, e.refs, e.infs))  got == RangeOf(e.names)
      r == TLCEval(Rates(e.t0))
      wrong == {i \in 1 .. Len(e.names) : \A c \in {Idx(e.names[i])} : ~FrClose(Freq(c, r), e.frq[i])}
  IN  If(got # want, "set of constituents: missing " \o ToString(want \ got) \o ", extra " \o ToString(got \ want))
      \o If(Len(e.names) # Cardinality(got), "a constituent appears twice")
      \o If(e.nR # Cardinality(RangeOf(e.refs)) \/ e.nI # Len(e.infs) \/ e.nNR # Cardinality(NR(sel, e.refs, e.infs)), "counts")
      \o If(Len(e.frq) # Len(e.names) \/ Len(e.lens) # Cardinality({i \in 1 .. Len(e.lens) : e.lens[i] = Len(e.names)}), "lengths")
      \o If(Len(e.frq) = Len(e.names) /\ wrong # {}, "frequency of " \o ToString({e.names[i] : i \in wrong}))
====
