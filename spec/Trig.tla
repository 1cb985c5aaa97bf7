---- MODULE Trig ----
(* cos and sin of an angle in cycles (fixed point, modulo One), as fixed point: octant reduction and Taylor
   polynomials.  Accuracy is a few units in the 8th decimal.                                              *)
EXTENDS Num

TwoPi == 628318531
(* x = angle in radians, |x| <= pi/4 *)
SinT(x) == LET x2 == FxMul(x, x)
           IN  FxMul(x, One - FxMul(x2, 16666667 - FxMul(x2, 833333 - FxMul(x2, 19841 - FxMul(x2, 276)))))
CosT(x) == LET x2 == FxMul(x, x)
           IN  One - FxMul(x2, 50000000 - FxMul(x2, 4166667 - FxMul(x2, 138889 - FxMul(x2, 2480 - FxMul(x2, 28)))))
(* quadrant k and remainder r in [-1/8, 1/8) cycle *)
CosCyc(p) == LET q == p % One
                 k == ((q + One \div 8) \div (One \div 4)) % 4
                 r == LET d == q - k * (One \div 4) IN IF d > One \div 2 THEN d - One ELSE d
                 x == FxMul(r, TwoPi)
             IN  CASE k = 0 -> CosT(x) [] k = 1 -> -SinT(x) [] k = 2 -> -CosT(x) [] k = 3 -> SinT(x)
SinCyc(p) == CosCyc(p + 3 * (One \div 4))
Cis(p) == <<CosCyc(p), SinCyc(p)>>
(* complex fixed point <<re, im>> *)
CMul(a, b) == <<FxMul(a[1], b[1]) - FxMul(a[2], b[2]), FxMul(a[1], b[2]) + FxMul(a[2], b[1])>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CConj(a) == <<a[1], -a[2]>>
CScale(k, a) == <<FxMul(k, a[1]), FxMul(k, a[2])>>
COne == <<One, 0>>
RECURSIVE CPow(_, _)
CPow(a, n) == IF n = 0 THEN COne ELSE CMul(a, CPow(a, n - 1))
CAbs(a) == FxSqrt(FxMul(a[1], a[1]) + FxMul(a[2], a[2]))
(* principal square root *)
CSqrt(a) == LET m == CAbs(a)
            IN  <<FxSqrt((m + a[1]) \div 2), Sgn(a[2]) * FxSqrt((m - a[1]) \div 2)>>
====
