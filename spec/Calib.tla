---- MODULE Calib ----
(* What confidence intervals promise.  With white noise of variance s2 and n samples at well separated constituents, each
   coefficient of cos or sin has variance 2 s2/n (MC_Calib: derived exactly by propagating the distribution of +-1 noise
   through the normal equations), hence the squared half-width of a 95% interval

       amplitude, or either semi-axis:   W2 = 1.96^2 * 2 s2/n / F^2              (F: nodal factor of the constituent)
       phase of a scalar constituent:    (180/pi)^2 W2 / A^2
       phase and inclination:            (180/pi)^2 W2/8 * (1/p^2 + 1/m^2),       p, m = (L + l)/2, (L - l)/2

   (circular components have half the variance, and phase and inclination are half the sum and difference of their arguments).
   Noise of a vector with covariance <<suu, svv, suv>> has variances S, s along the major and the minor axis, and with it

       major, minor semi-axis:           1.96^2 * 2 S/n / F^2,   1.96^2 * 2 s/n / F^2
       inclination:                      (180/pi)^2 * 1.96^2 * 2/n / F^2 * (L^2 s + l^2 S)/(L^2 - l^2)^2
       phase:                            (180/pi)^2 * 1.96^2 * 2/n / F^2 * (L^2 S + l^2 s)/(L^2 - l^2)^2

   (in the axes of the ellipse cos and sin coefficients <<L, 0>> and <<0, l>> err by <<a1, a2>> and <<b1, b2>>:
   dL = a1, dl = b2, a2 = L dtheta - l dg, b1 = L dg - l dtheta); the same as above when S = s (MC_Calib: Isotropic).
   A half-width of Wide(k) standard errors covers 95%.                                                                        *)
EXTENDS Flt, Obs
Z2 == FlOf(38416)                                        \* 1.96^2 * 10^4
Rad2 == FlOf(32828064)                                   \* (180/pi)^2 * 10^4
E4 == FlPow10(4)
Half2(s2, n, F) == FlDiv(FlMul(FlDiv(Z2, E4), FlMul(FlOf(2), s2)), FlMul(FlOf(n), FlSq(F)))
ScalarPhase2(w2, A) == FlDiv(FlMul(FlDiv(Rad2, E4), w2), FlSq(A))
EllipsePhase2(w2, L, l) ==
  LET p == FlDiv(FlAdd(L, l), FlOf(2))
      m == FlDiv(FlSub(L, l), FlOf(2))
      one == FlOf(1)
  IN  FlMul(FlMul(FlDiv(Rad2, E4), FlDiv(w2, FlOf(8))), FlAdd(FlDiv(one, FlSq(p)), FlDiv(one, FlSq(m))))
FlFx(x) == FlNorm(x, 0)                                  \* of a fixed point number
(* noise variances <<along the major, along the minor axis>> of an ellipse inclined by th (1e-6 degree) *)
AxisNoise(S, th) == LET z == Cis(Deg6(th))
                        cc == FlFx(FxMul(z[1], z[1]))  ss == FlFx(FxMul(z[2], z[2]))  cs == FlMul(FlMul(FlOf(2), S[3]), FlFx(FxMul(z[1], z[2])))
                    IN  << FlAdd(FlAdd(FlMul(S[1], cc), FlMul(S[2], ss)), cs), FlSub(FlAdd(FlMul(S[1], ss), FlMul(S[2], cc)), cs) >>
(* squared half-widths <<Lsmaj, Lsmin, theta, g>>, angles in degrees *)
Ellipse2(S, n, F, L, l, th) ==
  LET x == AxisNoise(S, th)
      h == << Half2(x[1], n, F), Half2(x[2], n, F) >>
      d == FlSq(FlSub(FlSq(L), FlSq(l)))
      ang(a, b) == FlMul(FlDiv(Rad2, E4), FlDiv(FlAdd(FlMul(FlSq(L), a), FlMul(FlSq(l), b)), d))
  IN  << h[1], h[2], ang(h[2], h[1]), ang(h[1], h[2]) >>
(* coverage: of n intervals at 95%, at least / at most (six standard deviations and an allowance of a permille of n) *)
Sd6(n) == ISqrt((36 * 475 * n) \div 10000) + 1
CoverMin(n, a) == (950 * n) \div 1000 - Sd6(n) - (a * n) \div 1000
CoverMax(n, a) == (950 * n) \div 1000 + Sd6(n) + (a * n) \div 1000
====
