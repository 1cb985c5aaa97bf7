---- MODULE Flt ----
(* Decimal floating point: <<m, e>> stands for m * 10^(e-8), 10^7 <= |m| < 10^8, or <<0, 0>>.  About 7 digits.
   NaN is <<0, 9999>>, an infinity <<0, 9998>>.                                                              *)
EXTENDS Num
FlZero == <<0, 0>>
FlNaN == <<0, 9999>>
FlInf == <<0, 9998>>
FlFinite(x) == x[2] < 9000
P10 == <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000>>
RECURSIVE FlNorm(_, _)
FlNorm(m, e) == IF m = 0 THEN FlZero
                ELSE IF Abs(m) >= One THEN FlNorm(QuoT(m, 10), e + 1)
                ELSE IF Abs(m) < One \div 10 THEN FlNorm(m * 10, e - 1)
                ELSE <<m, e>>
FlOf(n) == FlNorm(n, 8)                                   \* an integer
FlNeg(x) == <<-x[1], x[2]>>
FlAbs(x) == <<Abs(x[1]), x[2]>>
FlMul(x, y) == IF x[1] = 0 \/ y[1] = 0 THEN FlZero ELSE FlNorm(FxMul(x[1], y[1]), x[2] + y[2])
\* divide mantissas of one size: the quotient is in (0.1, 10)
FlDiv(x, y) == IF y[1] = 0 THEN FlNaN ELSE IF x[1] = 0 THEN FlZero ELSE FlNorm(FxDiv(x[1], y[1]), x[2] - y[2])
FlShift(m, k) == IF k > 9 THEN 0 ELSE QuoT(m, P10[k + 1])
FlAdd(x, y) == IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
               ELSE IF x[2] >= y[2] THEN FlNorm(x[1] + FlShift(y[1], x[2] - y[2]), x[2])
               ELSE FlNorm(y[1] + FlShift(x[1], y[2] - x[2]), y[2])
FlSub(x, y) == FlAdd(x, FlNeg(y))
FlSq(x) == FlMul(x, x)
FlSum(s) == FoldLeft(LAMBDA a, b : FlAdd(a, b), FlZero, s)
FlSgn(x) == IF x[1] > 0 THEN 1 ELSE IF x[1] < 0 THEN -1 ELSE 0
FlLeq(x, y) == FlSgn(FlSub(y, x)) >= 0
FlLt(x, y) == FlSgn(FlSub(y, x)) > 0
FlMax(x, y) == IF FlLeq(x, y) THEN y ELSE x
FlMin(x, y) == IF FlLeq(x, y) THEN x ELSE y
FlPow10(k) == <<One \div 10, k + 1>>                      \* 10^k
\* |x - y| <= 10^k * max(|x|, |y|)
FlNear(x, y, k) == FlFinite(x) /\ FlFinite(y) /\ FlLeq(FlAbs(FlSub(x, y)), FlMul(FlPow10(k), FlMax(FlAbs(x), FlAbs(y))))
\* |x - y| <= 10^k * s
FlNearTo(x, y, s, k) == FlFinite(x) /\ FlFinite(y) /\ FlFinite(s) /\ FlLeq(FlAbs(FlSub(x, y)), FlMul(FlPow10(k), FlAbs(s)))
====
