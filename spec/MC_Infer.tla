---- MODULE MC_Infer ----
(* On a grid of references: equal ratios and offsets of both components scale the ellipse and lag its phase, leaving its
   inclination; in the scalar case the amplitude is the ratio times and the phase the offset less.                        *)
EXTENDS Infer
VARIABLES e, q, st
vars == <<e, q, st>>
Axes == {<<80000000, 20000000>>, <<80000000, -50000000>>, <<30000000, 30000000>>, <<50000000, 0>>}
Init == st = 0 /\ e \in {[L |-> a[1], l |-> a[2], th |-> 0, g |-> 0] : a \in Axes} /\ q = <<>>
Next == \/ st = 0 /\ st' = 1 /\ UNCHANGED q /\ \E th \in {0, 40000000, 135000000}, g \in {0, 77000000, 200000000, 350000000} : e' = [e EXCEPT !.th = th, !.g = g]
        \/ st = 1 /\ st' = 2 /\ UNCHANGED e /\ \E r \in {10000000, 50000000, 100000000}, r2 \in {20000000, 50000000}, z \in {0, 30000000, -120000000}, z2 \in {0, 90000000} :
             q' = [r |-> <<r, r2>>, z |-> <<z, z2>>]
Spec == Init /\ [][Next]_vars
Tol == 60
Same == [L |-> FxMul(q.r[1], e.L), l |-> FxMul(q.r[1], e.l), th |-> e.th, g |-> e.g - q.z[1]]
Equal2 == [q EXCEPT !.r = <<q.r[1], q.r[1]>>, !.z = <<q.z[1], q.z[1]>>]
EqualFactorsScale == st = 2 => Related(TRUE, e, Same, Equal2, Tol)
ScalarLag == st = 2 => Related(FALSE, [A |-> e.L, g |-> e.g], [A |-> FxMul(q.r[1], e.L), g |-> e.g - q.z[1]], q, Tol)
SizesScale == st = 2 => Near(CAbs(InfP(e, q.r[1], q.z[1])), FxMul(q.r[1], CAbs(RotP(e))), 300) /\ Near(CAbs(InfM(e, q.r[2], q.z[2])), FxMul(q.r[2], CAbs(RotM(e))), 300)
LI == CAbs(InfP(e, q.r[1], q.z[1])) + CAbs(InfM(e, q.r[2], q.z[2]))
MI == CAbs(InfP(e, q.r[1], q.z[1])) - CAbs(InfM(e, q.r[2], q.z[2]))
LR == CAbs(RotP(e)) + CAbs(RotM(e))
MR == CAbs(RotP(e)) - CAbs(RotM(e))
AxesCombine == st = 2 => /\ Near(2 * LI, FxMul(q.r[1] + q.r[2], LR) + FxMul(q.r[1] - q.r[2], MR), 600)
                         /\ Near(2 * MI, FxMul(q.r[1] - q.r[2], LR) + FxMul(q.r[1] + q.r[2], MR), 600)
====
