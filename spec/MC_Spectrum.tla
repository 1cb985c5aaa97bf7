---- MODULE MC_Spectrum ----
(* A line of amplitude 1 (and one of the other series, of amplitude 2, with a phase lead): the densities add up to its variance, 1/2, the
   co-spectrum to the mean product; away from the line (further than the window reaches) there is nothing.                       *)
EXTENDS Spectrum
CONSTANTS Mutant, N, Q
VARIABLES line, lead
vars == <<line, lead>>
Phases == << <<FlOf(1), FlZero>>, <<FlZero, FlOf(1)>>, <<FlOf(0 - 1), FlZero>>, <<FlZero, FlOf(0 - 1)>> >>
Cosines == <<1, 0, 0 - 1, 0>>
HammingWindow(c, n, k) == LET a == Coef(c, n, k) b == Coef(c, n, k - 1) d == Coef(c, n, k + 1)
                              h(i) == FlSub(FlMul(<<54000000, 0>>, a[i]), FlMul(<<23000000, 0>>, FlAdd(b[i], d[i]))) IN <<h(1), h(2)>>
Dens(c, d, k) == LET dt == FlDiv(FlOf(Q), FlOf(4)) IN
                 IF Mutant = "hamming" THEN DensityBy(HammingWindow, 2, c, d, N, dt, k)
                 ELSE IF Mutant = "twosided" THEN DensityBy(Windowed, 1, c, d, N, dt, k) ELSE Density(c, d, N, dt, k)
H == N \div 2
Line(k, z) == [i \in 1 .. H + 1 |-> IF i = k + 1 THEN z ELSE Z]
Cu == Line(line, <<FlDiv(FlOf(1), FlOf(2)), FlZero>>)
Cv == Line(line, Phases[lead])
\* times the spacing of the frequencies
Total(c, d) == FlDiv(FlSum([k \in 1 .. H + 1 |-> Dens(c, d, k - 1)]), FlMul(FlOf(N), FlDiv(FlOf(Q), FlOf(4))))
Init == line = 2 /\ lead \in 1 .. 4
Next == line < H - 2 /\ line' = line + 1 /\ UNCHANGED lead
Spec == Init /\ [][Next]_vars
Power == /\ FlNear(Total(Cu, Cu), <<50000000, 0>>, 0 - 6)
         /\ FlNear(Total(Cv, Cv), FlOf(2), 0 - 6)
Product == FlNearTo(Total(Cu, Cv), FlOf(Cosines[lead]), FlOf(1), 0 - 6)
Local == \A k \in 0 .. H : (k < line - 1 \/ k > line + 1) => Dens(Cu, Cu, k) = FlZero
Bins == \A b \in 1 .. Len(Bands) : Cardinality(Next1(b, N, Q, H)) <= 1 /\ \A a \in 1 .. Len(Bands) : a # b => BandBins(a, N, Q, H) \cap (BandBins(b, N, Q, H) \cup Next1(b, N, Q, H)) = {}
====
