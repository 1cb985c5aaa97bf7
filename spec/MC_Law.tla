---- MODULE MC_Law ----
(* The laws on a grid: they are consistent with the velocity vector the ellipse stands for. *)
EXTENDS Law
VARIABLES e, ang, st
vars == <<e, ang, st>>
Axes == {<<80000000, 20000000>>, <<80000000, -50000000>>, <<30000000, 30000000>>, <<50000000, 0>>}
Init == st = 0 /\ e \in {[L |-> a[1], l |-> a[2], th |-> 0, g |-> 0] : a \in Axes} /\ ang = 0
Next == st = 0 /\ st' = 1 /\ \E th \in {0, 40000000, 90000000, 135000000}, g \in {0, 77000000, 200000000, 350000000} :
          e' = [e EXCEPT !.th = th, !.g = g] /\ ang' \in {0, 25000000, 90000000, 180000000, 270000000}
Spec == Init /\ [][Next]_vars
Tol == 80
Ps == {0, 12500000, 40000000, 77000000}
Vec(x, p) == CAdd(CRot(RotP(x), p), CRot(RotM(x), -p))
\* phasors of the two components: u(p) = Re(a e^{ip})
CompU(x) == CAdd(RotP(x), CConj(RotM(x)))
CompV(x) == LET d == CAdd(RotP(x), CScale(-One, CConj(RotM(x)))) IN <<d[2], -d[1]>>       \* -i (P - conj M)
ReAt(a, p) == CRot(a, p)[1]
Turned(x, deg) == [x EXCEPT !.th = x.th + deg]
TurnLaw == TurnOk(TRUE, Turned(e, ang), e, Deg6(ang), Tol)
VecTurns == \A p \in Ps : CNear(Vec(Turned(e, ang), p), CRot(Vec(e, p), Deg6(ang)), Tol)
Components == \A p \in Ps : Near(ReAt(CompU(e), p), Vec(e, p)[1], Tol) /\ Near(ReAt(CompV(e), p), Vec(e, p)[2], Tol)
ScalarsLaw == FromScalars(e, CompU(e), CompV(e), Tol)
MirrorLaw == \A f \in {[e EXCEPT !.th = 90000000 - e.th + 360000000, !.l = -e.l]} :
               Mirrored(e, f, Tol) /\ \A p \in Ps : Near(Vec(f, p)[1], Vec(e, p)[2], Tol) /\ Near(Vec(f, p)[2], Vec(e, p)[1], Tol)
\* a later phase origin: B' = e^{i ang} B, g' = g + ang
RebaseLaw == Rebased(TRUE, [e EXCEPT !.g = e.g + ang], e, Cis(Deg6(ang)), Tol)
\* the vector at -p is the reversed ellipse's at p
Reversed(x) == [x EXCEPT !.l = -x.l, !.g = FullDeg - x.g]
BackLaw == BackOk(TRUE, Reversed(e), e, Tol) /\ \A p \in Ps : CNear(Vec(Reversed(e), p), Vec(e, -p), Tol)
\* adding vectors adds circular components: the sum of two ellipses is the ellipse of the summed components
Other == [L |-> 40000000, l |-> -30000000, th |-> 20000000, g |-> 33000000]
SumLaw == \A p \in Ps : LET P == Lin(2, RotP(e), -1, RotP(Other))  M == Lin(2, RotM(e), -1, RotM(Other))
                        IN CNear(CAdd(CRot(P, p), CRot(M, -p)), Lin(2, Vec(e, p), -1, Vec(Other, p)), Tol)
\* a nonlinear analysis (moduli add) is told apart
SumTells == \E f \in {[e EXCEPT !.L = 2 * e.L - Other.L, !.l = 2 * e.l - Other.l]} : ang = 0 => ~SumOk(TRUE, f, e, Other, 2, -1, Tol)
====
