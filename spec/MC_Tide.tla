---- MODULE MC_Tide ----
(* Bounded check of the tidal equation itself: for every constituent and instants from antiquity to the far future,
   the parts of the equation agree with each other.                                                               *)
EXTENDS Tide
Cs == 1 .. NConst
CONSTANT Deep
Days == IF Deep THEN {-690000, -200000, -1, 36525, 40177, 45000, 900000, 2500000} ELSE {-200000, 40177, 900000}
Lats == IF Deep THEN {-899999, 0, 50000, 450000} ELSE {-300001, 0}
VARIABLES cst, day, lat
vars == <<cst, day, lat>>
None == 0
Init == cst \in Cs /\ day = None /\ lat = None
Next == day = None /\ day' \in Days /\ lat' \in Lats /\ UNCHANGED cst
Spec == Init /\ [][Next]_vars
\* distance of two phases on the circle
Circ(a, b) == LET d == (a - b) % One IN Min2(d, One - d)
tk == (day * 37) % Ticks
T == <<day, tk>>
T2 == <<day + 1, tk>>
\* the argument advances at the constituent's frequency (numerically: over one day)
VRate == Circ(V(cst, Astro(T2)) - V(cst, Astro(T)), Advance(Freq(cst, Rates(T)), <<1, 0>>)) <= 400
\* linear_time and raw agree with Greenwich around the reference time
AtRef == LET x == Ctx(T, T, lat) IN
           /\ Arg(cst, x, "linear_time", FALSE) = Arg(cst, x, "Greenwich", FALSE)
           /\ Arg(cst, x, "raw", FALSE) = 0
           /\ NodArg(cst, x, "linear_time") = NodArg(cst, x, "exact")
\* nodal modulation is moderate, and absent exactly without satellites (own or of a parent)
HasSat == \/ Tab[cst].sats # <<>>
          \/ \E i \in 1 .. Len(Tab[cst].parents) : Tab[Tab[cst].parents[i].idx].sats # <<>>
NodOk == LET z == Nod(cst, Astro(T), LatFactors(lat)) IN
           /\ CAbs(z) < 9 * One
           /\ ~HasSat => z = COne
\* the whole basis function has modulus F
Modulus == LET x == Ctx(T2, T, lat) z == Basis(cst, x, "Greenwich", "exact", FALSE)
           IN Abs(CAbs(z) - CAbs(NodArg(cst, x, "exact"))) <= 4000
\* southern hemisphere: only the antisymmetric satellites change sign; inside the band latitude is immaterial
Band == (Abs(lat) < 50000) => EffLat(lat) = (IF lat < 0 THEN -50000 ELSE 50000)
====
