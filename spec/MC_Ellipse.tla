---- MODULE MC_Ellipse ----
(* Bounded check of the abstract state of an ellipse: over a grid of ellipses, the rotary pair determines the ellipse,
   equivalent parameterisations have the same pair, and the transformations used by the other checks act as stated.  *)
EXTENDS Obs
VARIABLES e, st
vars == <<e, st>>
Axes == {<<0, 0>>, <<30000000, 0>>, <<30000000, 30000000>>, <<30000000, -30000000>>, <<80000000, 20000000>>, <<80000000, -50000000>>}
Degs(n) == {k * 15000000 : k \in 0 .. n}
Init == st = 0 /\ e \in {[L |-> a[1], l |-> a[2], th |-> 0, g |-> 0] : a \in Axes}
Next == st = 0 /\ st' = 1 /\ \E th \in Degs(11), g \in Degs(23) : e' = [e EXCEPT !.th = th, !.g = g]
Spec == Init /\ [][Next]_vars
Tol == 40
\* turning by 180 degrees twice is the same ellipse
SameHalfTurn == EllSame(e, [e EXCEPT !.th = e.th + 180000000, !.g = e.g + 180000000], Tol)
\* reversing the sign of the minor axis is the other sense of rotation, unless it vanishes
Sense == (Abs(e.l) > 0 /\ e.L > 0) => ~EllSame(e, [e EXCEPT !.l = -e.l], Tol)
\* the velocity vector at phase p, from the ellipse and from the rotary pair, agree:  e^{i theta}(L cos + i l sin) = P e^{ip} + M e^{-ip}
VecOk == \A p \in {0, 12500000, 40000000, 77000000} :
   LET z == Cis(p - Deg6(e.g))
       w1 == CMul(Cis(Deg6(e.th)), <<FxMul(e.L, z[1]), FxMul(e.l, z[2])>>)
       w2 == CAdd(CRot(RotP(e), p), CRot(RotM(e), -p))
   IN  CNear(w1, w2, Tol)
\* rotating the current by a right angle turns theta only
Turn == EllSame([e EXCEPT !.th = e.th + 90000000], [e EXCEPT !.th = (e.th + 90000000) % 180000000,
                 !.g = IF e.th + 90000000 >= 180000000 THEN e.g + 180000000 ELSE e.g], Tol)
\* |P| + |M| = L, |P| - |M| = l
AxesOk == Near(CAbs(RotP(e)) + CAbs(RotM(e)), e.L, 200) /\ Near(CAbs(RotP(e)) - CAbs(RotM(e)), e.l, 200)
====
