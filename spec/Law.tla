---- MODULE Law ----
(* How the solution of an analysis transforms with its data.  Solutions are those of Obs.tla; a scalar constituent is a
   phasor a = A e^{-ig}, an ellipse the rotary pair P, M (w = P e^{ip} + M e^{-ip}).                                     *)
EXTENDS Obs, FiniteSets
Half(z) == <<z[1] \div 2, z[2] \div 2>>
CI(z) == <<-z[2], z[1]>>                                   \* i z
(* data multiplied by the unit number e^{i rot} (a scalar: rot = 0 or 180), then dm + ds * t added; sizes already scaled *)
RotMean(two, m, ph) == IF two THEN CMul(Cis(ph), <<m[1], m[2]>>) ELSE <<FxMul(CosCyc(ph), m[1])>>
MeanOk(two, got, base, ph, d, tol) == Len(got) = Len(base) /\ (base = <<>> \/ LET w == RotMean(two, base, ph) IN \A k \in 1 .. Len(got) : Near(got[k], w[k] + d[k], tol))
TurnOk(two, got, base, ph, tol) ==
  IF two THEN CNear(RotP(got), CRot(RotP(base), ph), tol) /\ CNear(RotM(got), CRot(RotM(base), ph), tol)
  ELSE CNear(Phasor(got.A, got.g), CRot(Phasor(base.A, base.g), ph), tol)
Transformed(got, base, rot, dm, ds, tol) ==
  LET ph == Deg6(rot) IN
  (IF NamesOf(got) # NamesOf(base) THEN <<"set of constituents">> ELSE
     LET b == {n \in NamesOf(base) : ~TurnOk(base.two, Par(got, n), Par(base, n), ph, tol)} IN IF b = {} THEN <<>> ELSE <<"parameters of " \o ToString(b)>>)
  \o (IF MeanOk(base.two, got.mean, base.mean, ph, dm, tol) THEN <<>> ELSE <<"mean">>)
  \o (IF MeanOk(base.two, got.slope, base.slope, ph, ds, tol) THEN <<>> ELSE <<"slope">>)
(* a vector analysis from the two scalar ones, and with the components exchanged (w' = i conj(w)) *)
PFrom(a, b) == Half(CAdd(a, CI(b)))
MFrom(a, b) == Half(CAdd(CConj(a), CI(CConj(b))))
FromScalars(e, a, b, tol) == CNear(RotP(e), PFrom(a, b), tol) /\ CNear(RotM(e), MFrom(a, b), tol)
Mirrored(e, f, tol) == CNear(RotP(f), CI(CConj(RotM(e))), tol) /\ CNear(RotM(f), CI(CConj(RotP(e))), tol)
(* superposition: data k1 x + k2 y *)
Lin(k1, a, k2, b) == [j \in 1 .. Len(a) |-> k1 * a[j] + k2 * b[j]]
SumOk(two, got, a, b, k1, k2, tol) ==
  IF two THEN CNear(RotP(got), Lin(k1, RotP(a), k2, RotP(b)), tol) /\ CNear(RotM(got), Lin(k1, RotM(a), k2, RotM(b)), tol)
  ELSE CNear(Phasor(got.A, got.g), Lin(k1, Phasor(a.A, a.g), k2, Phasor(b.A, b.g)), tol)
LinOk(got, a, b, k1, k2, tol) == Len(got) = Len(a) /\ Len(a) = Len(b) /\ SeqNear(got, Lin(k1, a, k2, b), tol)
Superposed(got, a, b, k1, k2, tol) ==
  (IF NamesOf(got) # NamesOf(a) \/ NamesOf(got) # NamesOf(b) THEN <<"set of constituents">> ELSE
     LET off == {n \in NamesOf(a) : ~SumOk(got.two, Par(got, n), Par(a, n), Par(b, n), k1, k2, tol)} IN IF off = {} THEN <<>> ELSE <<"parameters of " \o ToString(off)>>)
  \o (IF LinOk(got.mean, a.mean, b.mean, k1, k2, tol) THEN <<>> ELSE <<"mean">>)
  \o (IF LinOk(got.slope, a.slope, b.slope, k1, k2, tol) THEN <<>> ELSE <<"slope">>)
(* the record read backwards: the two circular components change places *)
BackOk(two, got, base, tol) ==
  IF two THEN CNear(RotP(got), RotM(base), tol) /\ CNear(RotM(got), RotP(base), tol)
  ELSE CNear(Phasor(got.A, got.g), CConj(Phasor(base.A, base.g)), tol)
Backward(got, base, tol) ==
  (IF NamesOf(got) # NamesOf(base) THEN <<"set of constituents">> ELSE
     LET off == {n \in NamesOf(base) : ~BackOk(base.two, Par(got, n), Par(base, n), tol)} IN IF off = {} THEN <<>> ELSE <<"parameters of " \o ToString(off)>>)
  \o (IF SeqNear(got.mean, base.mean, tol) THEN <<>> ELSE <<"mean">>)
  \o (IF SeqNear(got.slope, [j \in 1 .. Len(base.slope) |-> -base.slope[j]], tol) THEN <<>> ELSE <<"slope">>)
(* the same data fitted with basis functions B' = z B: amplitudes a' = a / z *)
Rebased(two, got, base, z, tol) ==          \* base = parameters for B, got = parameters for z B
  IF two THEN CNear(RotP(base), CMul(RotP(got), z), tol) /\ CNear(RotM(base), CMul(RotM(got), CConj(z)), tol)
  ELSE CNear(Phasor(base.A, base.g), CMul(Phasor(got.A, got.g), z), tol)
====
