---- MODULE MC_Flt ----
(* Bounded check of the arithmetic the trace specifications rely on: laws on a grid of integers, and fixed against big numbers. *)
EXTENDS Flt, Trig
VARIABLES a, b, st
vars == <<a, b, st>>
Vals == {-98765432, -40000000, -999, -1, 0, 1, 2, 3, 7, 10, 999, 12345, 20000000, 77777777}
Init == st = 0 /\ a \in Vals /\ b = 0
Next == st = 0 /\ st' = 1 /\ b' \in Vals /\ UNCHANGED a
Spec == Init /\ [][Next]_vars
Z(x) == BzOf(x)
AddOk == FlNear(FlAdd(FlOf(a), FlOf(b)), FlOf(a + b), -7) /\ BzToInt(BzAdd(Z(a), Z(b))) = a + b
SubOk == FlNearTo(FlSub(FlOf(a), FlOf(b)), FlOf(a - b), FlMax(FlAbs(FlOf(a)), FlAbs(FlOf(b))), -6)
MulOk == /\ FlNear(FlMul(FlOf(a), FlOf(b)), FlMul(FlOf(b), FlOf(a)), -7)
         /\ (Abs(a) < 13000 /\ Abs(b) < 13000) => FlNear(FlMul(FlOf(a), FlOf(b)), FlOf(a * b), -6)
         /\ BzMul(Z(a), Z(b)) = BzMul(Z(b), Z(a))
         /\ Abs(FxMul(a, b)) <= Abs(a)
DivOk == (b # 0) => FlNear(FlMul(FlDiv(FlOf(a), FlOf(b)), FlOf(b)), FlOf(a), -6)
OrdOk == (a < b) <=> FlLt(FlOf(a), FlOf(b))
BzOrd == (a <= b) <=> BzLeq(Z(a), Z(b))
\* distributivity of big numbers, and remainders
Dist == BzMul(Z(a), BzAdd(Z(b), Z(7))) = BzAdd(BzMul(Z(a), Z(b)), BzMul(Z(a), Z(7)))
QuoRem == (b # 0) => a = b * QuoT(a, b) + RemT(a, b)
Circle == LET z == Cis(a) IN Near(FxMul(z[1], z[1]) + FxMul(z[2], z[2]), One, 60)
AddAngle == LET z == CMul(Cis(a % One), Cis(b % One)) y == Cis((a + b) % One) IN Near(z[1], y[1], 60) /\ Near(z[2], y[2], 60)
Root == (a >= 0) => Near(FxMul(FxSqrt(a), FxSqrt(a)), a, 60)
====
