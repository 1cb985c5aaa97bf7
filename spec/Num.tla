---- MODULE Num ----
(* Arithmetic used by the numeric part of the specification.  TLC's integers have 32 bits (it raises an
   error on overflow, never wraps), so there are two representations:
     - fixed point: an integer standing for value / One, One = 10^8, |value| < 21;
     - big integers: <<sign, limbs>>, limbs a little-endian sequence in base 10^4, for the polynomial
       arguments of the astronomical variables, constituent frequencies and sums of squares.          *)
EXTENDS Integers, Sequences, SequencesExt, TLC

One == 100000000
Base == 10000

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
(* truncated division and remainder, like C *)
QuoT(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
RemT(a, b) == a - b * QuoT(a, b)
Near(a, b, tol) == Abs(a - b) <= tol
SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
MaxSeq(s) == FoldLeft(LAMBDA x, y : Max2(x, y), s[1], s)

(* ---- fixed point ---- *)
FxMulU(a, b) == LET ah == a \div Base  al == a % Base  bh == b \div Base  bl == b % Base
                IN  ah * bh + (ah * bl) \div Base + (al * bh) \div Base + (al * bl) \div One
FxMul(a, b) == Sgn(a) * Sgn(b) * FxMulU(Abs(a), Abs(b))
(* a/b for 0 <= a, 0 < b: nine quotient digits *)
RECURSIVE FxDivDig(_, _, _, _)
FxDivDig(r, b, k, q) == IF k = 0 THEN q
                        ELSE LET r10 == (r % b) * 10 IN FxDivDig(r10, b, k - 1, q * 10 + r10 \div b)
(* r*10 must fit in 31 bits, hence the scaling of large divisors *)
FxDivU(a, b) == IF b < 200000000 THEN FxDivDig(a, b, 8, a \div b) ELSE FxDivDig(a \div 16, b \div 16, 8, a \div b)
FxDiv(a, b) == Sgn(a) * Sgn(b) * FxDivU(Abs(a), Abs(b))

(* ---- big naturals: little-endian sequences of limbs ---- *)
RECURSIVE BnTrim(_)
BnTrim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] # 0 THEN a ELSE BnTrim(SubSeq(a, 1, Len(a) - 1))
RECURSIVE BnOf(_)
BnOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o BnOf(n \div Base)
Limb(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0
(* propagate carries; input limbs may be any non-negative integers *)
BnCarry(a) == LET r == FoldLeft(LAMBDA acc, x : LET v == acc[2] + x IN <<Append(acc[1], v % Base), v \div Base>>, <<<<>>, 0>>, a)
              IN  BnTrim(r[1] \o BnOf(r[2]))
BnAdd(a, b) == BnCarry(TLCEval([i \in 1 .. Max2(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)]))
BnLt(a, b) == \* a < b, both trimmed
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE LET d == {i \in 1 .. Len(a) : a[i] # b[i]}
       IN  IF d = {} THEN FALSE ELSE LET m == CHOOSE i \in d : \A j \in d : j <= i IN a[m] < b[m]
BnSub(a, b) == \* a >= b
  LET r == FoldLeft(LAMBDA acc, x : LET v == x - acc[2] IN IF v < 0 THEN <<Append(acc[1], v + Base), 1>> ELSE <<Append(acc[1], v), 0>>,
                    <<<<>>, 0>>, TLCEval([i \in 1 .. Len(a) |-> a[i] - Limb(b, i)]))
  IN  BnTrim(r[1])
BnMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE BnCarry(TLCEval([k \in 1 .. Len(a) + Len(b) - 1 |->
                 SumSeq(TLCEval([i \in 1 .. Len(a) |-> a[i] * Limb(b, k + 1 - i)]))]))
(* multiplication / division by a small number, up to 2*10^5 *)
BnMulS(a, k) == BnCarry(TLCEval([i \in 1 .. Len(a) |-> a[i] * k]))
BnDivS(a, k) == LET r == FoldLeft(LAMBDA acc, x : LET v == acc[2] * Base + x IN <<<<v \div k>> \o acc[1], v % k>>, <<<<>>, 0>>, Reverse(a))
                IN  BnTrim(r[1])
BnModS(a, k) == FoldLeft(LAMBDA acc, x : (acc * Base + x) % k, 0, Reverse(a))
BnShr(a, limbs) == IF Len(a) <= limbs THEN <<>> ELSE SubSeq(a, limbs + 1, Len(a))
BnLow8(a) == Limb(a, 1) + Base * Limb(a, 2)          \* value modulo 10^8
BnToInt(a) == FoldLeft(LAMBDA acc, x : acc * Base + x, 0, Reverse(a))

(* ---- big integers <<sign, limbs>> ---- *)
BzOf(n) == <<Sgn(n), BnOf(Abs(n))>>
BzMake(s, a) == <<IF a = <<>> THEN 1 ELSE s, a>>
BzNeg(x) == BzMake(-x[1], x[2])
BzAdd(x, y) == IF x[1] = y[1] THEN <<x[1], BnAdd(x[2], y[2])>>
               ELSE IF BnLt(x[2], y[2]) THEN BzMake(y[1], BnSub(y[2], x[2]))
               ELSE BzMake(x[1], BnSub(x[2], y[2]))
BzSub(x, y) == BzAdd(x, BzNeg(y))
BzMul(x, y) == BzMake(x[1] * y[1], BnMul(x[2], y[2]))
BzMulS(x, k) == BzMake(x[1] * Sgn(k), BnMulS(x[2], Abs(k)))
BzQuoS(x, k) == BzMake(x[1], BnDivS(x[2], k))        \* truncated
BzSumSeq(s) == FoldLeft(LAMBDA x, y : BzAdd(x, y), <<1, <<>>>>, s)
BzAbsLeq(x, n) == ~BnLt(BnOf(n), x[2])               \* |x| <= n
BzLeq(x, y) == LET d == BzSub(y, x) IN d[1] = 1
(* value modulo 10^8, in 0 .. One-1 *)
BzMod8(x) == LET r == BnLow8(x[2]) IN IF x[1] = 1 \/ r = 0 THEN r ELSE One - r
BzToInt(x) == x[1] * BnToInt(x[2])

(* integer square root by Newton steps *)
RECURSIVE ISqrtIt(_, _)
ISqrtIt(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISqrtIt(n, y)
ISqrt(n) == IF n = 0 THEN 0 ELSE ISqrtIt(n, Max2(1, Min2(n, 46340)))
(* fixed-point square root, 0 <= a < 21*One: isqrt gives 1e-4 relative accuracy, two Newton steps finish *)
FxSqrt(a) == IF a <= 0 THEN 0
             ELSE LET x0 == Max2(1, ISqrt(a) * Base)
                      x1 == (x0 + FxDiv(a, x0)) \div 2
                      x2 == (x1 + FxDiv(a, x1)) \div 2
                  IN  x2
====
