---- MODULE Trace_Law ----
(* C14, C15, C24.  e.k:
   tr:  e.vars[i]: an analysis of transformed data [form, rot, dm, ds, obs, x]; x: intervals, PE, SNR by name (compared if given)
   pre: e.vars[i]: the same analysis under presentation options; w: weights; quiet, out: whether and how much was printed; p: predictions
   sv:  vector and scalar analyses of the same data                                                                          *)
EXTENDS Law, Flt, Judge
Tag(p, s) == [i \in 1 .. Len(s) |-> p \o ": " \o s[i]]
XNear(x, y, k) == Len(x) = Len(y) /\ \A i \in 1 .. Len(x) : x[i] = y[i] \/ FlNear(x[i], y[i], k) \/ (FlLeq(FlAbs(x[i]), FlPow10(-9)) /\ FlLeq(FlAbs(y[i]), FlPow10(-9)))
Zeros(q) == [j \in 1 .. Len(q) |-> 0]
TrTol(v) == IF v.robust THEN 3000 ELSE 120
TrBad(e) == FoldLeft(LAMBDA acc, v : acc \o Tag(v.form,
              Transformed(v.obs, e.base, v.rot, v.dm, v.ds, TrTol(v))
              \o If(v.x # <<>> /\ ~XNear(v.x, e.x, IF v.robust THEN -3 ELSE -4), "intervals, PE or SNR")), <<>>, e.vars)
PreTol == 3
PreBad(e) == FoldLeft(LAMBDA acc, v : acc \o Tag(v.form,
              Transformed(v.obs, e.base, 0, <<0, 0>>, <<0, 0>>, PreTol)
              \o If(v.w # e.w /\ ~XNear(v.w, e.w, -6), "weights") \o If(v.quiet /\ v.out # 0, "printed although verbose=False")
              \o If(~SeqNear(v.p, e.p, PreTol), "predictions")), <<>>, e.vars)
SvTol == 120
SvBad(e) ==
  LET w == e.w  u == e.u  v == e.v  m == e.m IN
  IF ~(NamesOf(w) = NamesOf(u) /\ NamesOf(w) = NamesOf(v) /\ NamesOf(w) = NamesOf(m)) THEN <<"set of constituents">> ELSE
  LET ph(s, n) == Phasor(Par(s, n).A, Par(s, n).g)
      b1 == {n \in NamesOf(w) : ~FromScalars(Par(w, n), ph(u, n), ph(v, n), SvTol)}
      b2 == {n \in NamesOf(w) : ~Mirrored(Par(w, n), Par(m, n), SvTol)}
      deg == {n \in NamesOf(w) : Abs(Par(w, n).l) > SvTol}
  IN  If(b1 # {}, "ellipses differ from the scalar analyses: " \o ToString(b1))
      \o If(b2 # {}, "exchanged components do not mirror the ellipses: " \o ToString(b2))
      \o If(e.degenerate /\ deg # {}, "ellipses of proportional components are not straight: " \o ToString(deg))
      \o If(~(SeqNear(w.mean, u.mean \o v.mean, SvTol) /\ SeqNear(m.mean, v.mean \o u.mean, SvTol)), "means")
      \o If(~(SeqNear(w.slope, u.slope \o v.slope, SvTol) /\ SeqNear(m.slope, v.slope \o u.slope, SvTol)), "slopes")
      \o If(~(SeqNear(e.pw, e.pu \o e.pv, SvTol) /\ SeqNear(e.pm, e.pv \o e.pu, SvTol)), "predictions")
(* sum: e.vars[i]: the analysis of k1 x + k2 y; e.base, e.other: those of x and y; px, py, v.p: predictions *)
SumTol == 30
SumBad(e) == FoldLeft(LAMBDA acc, v : acc \o Tag(v.form, Superposed(v.obs, e.base, e.other, v.k1, v.k2, SumTol)
              \o If(~LinOk(v.p, e.px, e.py, v.k1, v.k2, SumTol), "predictions")), <<>>, e.vars)
(* time: e.vars[i]: the analysis of the record moved or read backwards; v.p: predictions at the moved or mirrored times *)
TimeTol(e) == IF e.robust THEN 3000 ELSE 200
TimeBad(e) == FoldLeft(LAMBDA acc, v : acc \o Tag(v.form,
              (IF v.back THEN Backward(v.obs, e.base, TimeTol(e)) ELSE Transformed(v.obs, e.base, 0, Zeros(e.base.mean), Zeros(e.base.slope), TimeTol(e)))
              \o If(v.x # <<>> /\ ~XNear(v.x, e.x, -3), "intervals, PE or SNR") \o If(~XNear(v.w, e.w, IF e.robust THEN -3 ELSE -6), "weights")
              \o If(~SeqNear(v.p, e.p, TimeTol(e)), "predictions")), <<>>, e.vars)
LawBad(e) == IF ~e.ok THEN <<"no result: " \o e.err>> ELSE CASE e.k = "tr" -> TrBad(e) [] e.k = "pre" -> PreBad(e) [] e.k = "sv" -> SvBad(e) [] e.k = "sum" -> SumBad(e) [] e.k = "time" -> TimeBad(e)
====
