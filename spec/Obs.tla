---- MODULE Obs ----
(* Observed solutions as integers, and the abstract (canonical) state they stand for.
   Amplitudes are fixed point after division by the size of the data; angles are in 1e-6 degrees.
   A scalar constituent is the complex number A e^{-ig}; an ellipse is the pair of counter-rotating circular
   components  P = (L+l)/2 e^{i(theta-g)},  M = (L-l)/2 e^{i(theta+g)}  (both are what the data determine, while
   theta and g alone are ill defined for circles).                                                            *)
EXTENDS Trig
FullDeg == 360000000

Deg6(x) == ((x % FullDeg) * 5) \div 18         \* 1e-6 degrees to cycles
CircDeg(a, b) == LET d == (a - b) % FullDeg IN Min2(d, FullDeg - d)
Phasor(A, g) == CScale(A, Cis(-Deg6(g)))
RotP(e) == CScale((e.L + e.l) \div 2, Cis(Deg6(e.th) - Deg6(e.g)))
RotM(e) == CScale((e.L - e.l) \div 2, Cis(Deg6(e.th) + Deg6(e.g)))
CNear(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol)
CRot(a, ph) == CMul(a, Cis(ph))

(* canonical ranges of reported parameters *)
ScalarRange(A, g) == A >= 0 /\ g >= 0 /\ g <= FullDeg
EllRange(e) == /\ e.L >= 0 /\ Abs(e.l) <= e.L + 1
               /\ e.th >= 0 /\ e.th <= 180000000 /\ e.g >= 0 /\ e.g <= FullDeg
ScalarSame(a, b, tol) == CNear(Phasor(a.A, a.g), Phasor(b.A, b.g), tol)
EllSame(a, b, tol) == CNear(RotP(a), RotP(b), tol) /\ CNear(RotM(a), RotM(b), tol)
ParSame(two, a, b, tol) == IF two THEN EllSame(a, b, tol) ELSE ScalarSame(a, b, tol)
ParRange(two, a) == IF two THEN EllRange(a) ELSE ScalarRange(a.A, a.g)

(* a solution: [two, trend, cs: sequence of constituents [n, A, g] or [n, L, l, th, g], mean: sequence, slope: sequence] *)
NamesOf(s) == {s.cs[i].n : i \in 1 .. Len(s.cs)}
Par(s, n) == s.cs[CHOOSE i \in 1 .. Len(s.cs) : s.cs[i].n = n]
SeqNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : Near(a[i], b[i], tol)
====
