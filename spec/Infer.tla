---- MODULE Infer ----
(* Inference: the two counter-rotating components of the inferred constituent are fixed complex multiples of those of its
   reference.  Ratios are fixed point, offsets in 1e-6 degrees.                                                            *)
EXTENDS Obs, Flt
MulP(r, z) == CScale(r, Cis(Deg6(z)))             \* r e^{+i zeta}
MulM(r, z) == CScale(r, Cis(-Deg6(z)))            \* r e^{-i zeta}
ScalarInf(ref, r, z) == CMul(Phasor(ref.A, ref.g), MulP(r, z))
InfP(ref, r, z) == CMul(RotP(ref), MulP(r, z))
InfM(ref, r, z) == CMul(RotM(ref), MulM(r, z))
\* q: [ref, inf, r, z] with r, z sequences of one (scalar) or two (vector) numbers
Related(two, ref, inf, q, tol) ==
  IF two THEN CNear(RotP(inf), InfP(ref, q.r[1], q.z[1]), tol) /\ CNear(RotM(inf), InfM(ref, q.r[2], q.z[2]), tol)
  ELSE CNear(Phasor(inf.A, inf.g), ScalarInf(ref, q.r[1], q.z[1]), tol)
(* The relation is exact, so the uncertainty of the inferred constituent is that of its reference: phase and orientation are shifted by
   constants; its axes are combinations of those of the reference, L' = s L + d l and l' = d L + s l.
   Half-widths (Flt): <<A, g>> or <<L, l, theta, g>>.                                                                              *)
Frac(r) == FlDiv(FlOf(r), FlPow10(8))
Combine2(s, x, d, y) == FlAdd(FlSq(FlMul(s, x)), FlSq(FlMul(d, y)))
WidthsRelated(two, ref, inf, q, k) ==
  IF ~two THEN FlNear(inf[1], FlMul(Frac(q.r[1]), ref[1]), k) /\ FlNear(inf[2], ref[2], k)
  ELSE LET s == FlDiv(FlOf(q.r[1] + q.r[2]), FlPow10(8))        \* twice the mean and the half difference of the ratios
           d == FlDiv(FlOf(q.r[1] - q.r[2]), FlPow10(8))
           four == FlOf(4)
       IN  /\ FlNear(FlMul(four, FlSq(inf[1])), Combine2(s, ref[1], d, ref[2]), k)
           /\ FlNear(FlMul(four, FlSq(inf[2])), Combine2(d, ref[1], s, ref[2]), k)
           /\ FlNear(inf[3], ref[3], k) /\ FlNear(inf[4], ref[4], k)
====
