---- MODULE Trace_Conv ----
(* C22: analyses of the same data under different phase and nodal conventions.
   A convention (ph, nod) with constant factor z = F e^{2 pi i (V + U)} at the reference time describes the same tide as
   the raw, uncorrected one:  a * z  is common.  Families in which the conventions differ by a constant only:
   raw / linear_time with nodal none / linear_time; raw / linear_time with exact nodal; Greenwich with none / linear_time;
   and any latitude without nodal corrections.  e.sets: sequence of families, each a sequence of analyses
   [ph, nod, lat, form, obs, p].                                                                                   *)
EXTENDS Tide, Obs, Judge, FiniteSets
Tag(p, s) == [i \in 1 .. Len(s) |-> p \o ": " \o s[i]]
Const(c, x, an) == CMul(CASE an.nod = "linear_time" -> Nod(c, x.a0, LatFactors(an.lat)) [] OTHER -> COne,
                        CASE an.ph = "linear_time" -> Cis(V(c, x.a0)) [] OTHER -> COne)
Size1(z) == Abs(z[1]) + Abs(z[2])
Tol(z, w) == 400 + (((Size1(z) + Size1(w)) \div 2000000) * 6)
Usable(c, x, an) == Size1(Nod(c, x.a0, LatFactors(an.lat))) > 15000000 /\ ~Half(c)
SameTide(two, c, x, an, bn, pa, pb) ==
  LET za == Const(c, x, an)  zb == Const(c, x, bn) IN
  IF two THEN CNear(CMul(RotP(pa), za), CMul(RotP(pb), zb), Tol(za, zb)) /\ CNear(CMul(RotM(pa), CConj(za)), CMul(RotM(pb), CConj(zb)), Tol(za, zb))
  ELSE CNear(CMul(Phasor(pa.A, pa.g), za), CMul(Phasor(pb.A, pb.g), zb), Tol(za, zb))
PTol == 300
Pair(e, x, an, bn) ==
  Tag(an.form \o " / " \o bn.form,
    IF NamesOf(an.obs) # NamesOf(bn.obs) THEN <<"set of constituents">> ELSE
      LET off == {n \in NamesOf(an.obs) : LET c == e.idx[n] IN Usable(c, x, an) /\ Usable(c, x, bn) /\
                    ~SameTide(an.obs.two, c, x, an, bn, Par(an.obs, n), Par(bn.obs, n))} IN
      If(off # {}, "not related by the argument and factors at the reference time: " \o ToString(off))
      \o If(~SeqNear(an.obs.mean, bn.obs.mean, PTol), "mean") \o If(~SeqNear(an.obs.slope, bn.obs.slope, PTol), "slope")
      \o If(~SeqNear(an.p, bn.p, PTol), "predictions"))
Family(e, x, s) == FoldLeft(LAMBDA acc, an : acc \o Pair(e, x, s[1], an), <<>>, Tail(s))
ConvBad(e) == IF ~e.ok THEN <<"no result: " \o e.err>> ELSE
  LET x == TLCEval([a0 |-> Astro(e.t0)]) IN FoldLeft(LAMBDA acc, s : acc \o Family(e, x, s), <<>>, e.sets)
====
