---- MODULE Irls ----
(* The weight functions of the robust method, and the iteration as a machine: a state is a pair (weights, coefficients), the
   coefficients being the least-squares solution of the equations multiplied by the weights; the next weights are the weight function
   of the residuals, scaled by their median size, by the tuning constant and by the leverage of each point.                         *)
EXTENDS Flt, FiniteSets
F1 == FlOf(1)
Fl(m, e) == FlNorm(m, e)
\* exp(-x) for x >= 0, by repeated squaring of a short series
RECURSIVE FlSquare(_, _)
FlSquare(x, k) == IF k = 0 THEN x ELSE FlSquare(FlSq(x), k - 1)
ExpSeries(y) == LET t1 == y t2 == FlDiv(FlMul(t1, y), FlOf(2)) t3 == FlDiv(FlMul(t2, y), FlOf(3)) t4 == FlDiv(FlMul(t3, y), FlOf(4)) t5 == FlDiv(FlMul(t4, y), FlOf(5))
                IN FlAdd(F1, FlAdd(FlAdd(FlNeg(t1), t2), FlAdd(FlNeg(t3), FlAdd(t4, FlNeg(t5)))))
ExpNeg(x) == IF FlLt(FlOf(40), x) THEN FlZero ELSE FlSquare(ExpSeries(FlDiv(x, FlOf(256))), 8)
\* sin x for 0 <= x <= 3.15, from the half angle: sin x = 2 sin(x/2) cos(x/2)
RECURSIVE Ser(_, _, _, _, _)
Ser(term, x2, k, n, acc) == IF n = 0 THEN acc
                            ELSE LET t == FlNeg(FlDiv(FlMul(term, x2), FlOf(k * (k + 1)))) IN Ser(t, x2, k + 2, n - 1, FlAdd(acc, t))
SinS(x) == Ser(x, FlSq(x), 2, 7, x)
CosS(x) == Ser(F1, FlSq(x), 1, 7, F1)
FlSin(x) == LET h == FlDiv(x, FlOf(2)) IN FlMul(FlOf(2), FlMul(SinS(h), CosS(h)))
FlPi == <<31415927, 1>>
\* tanh(r) / r for small r, in u = r^2
TanhSmall(u) == FlAdd(FlSub(F1, FlDiv(u, FlOf(3))), FlMul(FlSq(u), FlSub(FlDiv(FlOf(2), FlOf(15)), FlMul(u, FlDiv(FlOf(17), FlOf(315))))))
\* r >= 0
Weight(wf, r) ==
  CASE wf = "andrews"  -> IF r[1] = 0 \/ FlLt(r, Fl(10000000, -2)) THEN F1 ELSE IF FlLt(r, FlPi) THEN FlDiv(FlSin(r), r) ELSE FlZero
    [] wf = "bisquare" -> IF FlLt(r, F1) THEN FlSq(FlSub(F1, FlSq(r))) ELSE FlZero
    [] wf = "cauchy"   -> FlDiv(F1, FlAdd(F1, FlSq(r)))
    [] wf = "fair"     -> FlDiv(F1, FlAdd(F1, r))
    [] wf = "huber"    -> FlDiv(F1, FlMax(F1, r))
    [] wf = "logistic" -> IF r[1] = 0 \/ FlLt(r, Fl(10000000, -2)) THEN F1
                          ELSE IF FlLt(r, Fl(30000000, 0)) THEN TanhSmall(FlSq(r))
                          ELSE LET q == ExpNeg(FlMul(FlOf(2), r)) IN FlDiv(FlDiv(FlSub(F1, q), FlAdd(F1, q)), r)
    [] wf = "ols"      -> F1
    [] wf = "talwar"   -> IF FlLt(r, F1) THEN F1 ELSE FlZero
    [] wf = "welsch"   -> ExpNeg(FlSq(r))
Tuning == [andrews |-> Fl(13390000, 1), bisquare |-> Fl(46850000, 1), cauchy |-> Fl(23850000, 1), fair |-> Fl(14000000, 1), huber |-> Fl(13450000, 1),
           logistic |-> Fl(12050000, 1), ols |-> F1, talwar |-> Fl(27950000, 1), welsch |-> Fl(29850000, 1)]
Functions == DOMAIN Tuning
\* the place where a weight function jumps: there either value will do
Jump(wf, r) == wf = "talwar" /\ FlNear(r, F1, 0 - 5)
MedianOf(s) == LET o == SortSeq(s, LAMBDA a, b : FlLt(a, b))  n == Len(s)
               IN  IF n % 2 = 1 THEN o[(n + 1) \div 2] ELSE FlDiv(FlAdd(o[n \div 2], o[n \div 2 + 1]), FlOf(2))
SizeOf(r) == FlDiv(MedianOf(r), <<67450000, 0>>)              \* of absolute residuals
\* square root of a number in [0, 1]
FlSqrt(x) == IF x[1] <= 0 THEN FlZero
             ELSE LET m == IF x[2] % 2 = 0 THEN x ELSE <<x[1], x[2] + 1>>       \* mantissa in (0.1, 1) or a tenth of it
                      fx == IF x[2] % 2 = 0 THEN x[1] ELSE QuoT(x[1], 10)
                      s == FxSqrt(fx)
                  IN  FlNorm(s, m[2] \div 2)
Scaled(r, h, tune, size) == FlDiv(r, FlMul(FlMul(tune, size), FlSqrt(FlSub(F1, h))))
====
