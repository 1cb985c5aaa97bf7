---- MODULE MC_CalEll ----
(* The textbook widths of ellipses under noise of any covariance: their derivation (a small error of the coefficients is the error of the
   parameters that Calib says, up to its square), and what must be the same whichever way one computes it.  Cross: 1, or a mutant -1.  *)
EXTENDS Calib
CONSTANTS Cross
Neg == 0 - 1
VARIABLES lmin, th, gr, cov
Ls == {0, 30000000, 0 - 60000000, 70000000}
Ths == {0, 17000000, 45000000, 90000000, 133000000, 179999999}
Grs == {0, 60000000, 211000000}
Covs == {<<1, 1, 0>>, <<4, 1, 0>>, <<5, 5, 4>>, <<1, 9, 0 - 2>>, <<2, 3, 1>>}
Init == lmin \in Ls /\ th \in Ths /\ gr \in Grs /\ cov \in Covs
Next == UNCHANGED <<lmin, th, gr, cov>>
Spec == Init /\ [][Next]_<<lmin, th, gr, cov>>
L == One
(* errors of the coefficients in the axes of the ellipse, and the errors of the parameters that follow *)
Eps == One \div 10000
D == (FxMul(L, L) - FxMul(lmin, lmin))
ToDeg(x) == (x * 5730) \div 10000                       \* small angles: 1e-8 radian to 1e-6 degree
Moved(a1, a2, b1, b2) ==
  LET dth == FxDiv(FxMul(L, a2) + Cross * FxMul(lmin, b1), D)
      dg == FxDiv(FxMul(lmin, a2) + FxMul(L, b1), D)
  IN  [L |-> L + a1, l |-> lmin + b2, th |-> th + ToDeg(dth), g |-> gr + ToDeg(dg)]
Small == {0 - Eps, 0, Eps}
Derivation == \A a1 \in Small, a2 \in Small, b1 \in Small, b2 \in Small :
  LET e == Moved(a1, a2, b1, b2)
      X == <<L + a1, a2>>  Y == <<b1, lmin + b2>>
      P == << (X[1] + Y[2]) \div 2, (X[2] - Y[1]) \div 2 >>
      M == << (X[1] - Y[2]) \div 2, (X[2] + Y[1]) \div 2 >>
      turn(z, s) == CMul(z, Cis(Deg6(th) + s * Deg6(gr)))
  IN  CNear(RotP(e), turn(P, 0 - 1), 60) /\ CNear(RotM(e), turn(M, 1), 60)
Fl(x) == FlFx(x)
SS == [i \in 1 .. 3 |-> FlOf(cov[i])]
W == Ellipse2(SS, 1000, FlOf(1), Fl(L), Fl(lmin), th)
Close(a, b) == FlNear(a, b, 0 - 5)
(* noise the same in all directions: the widths of the circular components *)
Isotropic == (cov = <<1, 1, 0>>) => /\ Close(W[1], W[2]) /\ Close(W[3], W[4])
                                    /\ Close(W[3], EllipsePhase2(W[1], Fl(L), Fl(lmin))) /\ Close(W[1], Half2(FlOf(1), 1000, FlOf(1)))
(* the noise along the axes adds up to all of it *)
Whole == Close(FlAdd(W[1], W[2]), Half2(FlAdd(SS[1], SS[2]), 1000, FlOf(1)))
(* the other way to say the same ellipse, and exchanged components *)
Alias == LET V == Ellipse2(SS, 1000, FlOf(1), Fl(L), Fl(lmin), th + 180000000) IN \A j \in 1 .. 4 : Close(V[j], W[j])
Swap == LET V == Ellipse2(<<SS[2], SS[1], SS[3]>>, 1000, FlOf(1), Fl(L), Fl(0 - lmin), 90000000 - th) IN \A j \in 1 .. 4 : Close(V[j], W[j])
Mirror == LET V == Ellipse2(<<SS[1], SS[2], FlNeg(SS[3])>>, 1000, FlOf(1), Fl(L), Fl(0 - lmin), 0 - th) IN \A j \in 1 .. 4 : Close(V[j], W[j])
(* an ellipse along a component with noise <<suu, svv>> errs along and across by just these *)
Aligned == (th = 0) => Close(W[1], Half2(SS[1], 1000, FlOf(1))) /\ Close(W[2], Half2(SS[2], 1000, FlOf(1)))
====
