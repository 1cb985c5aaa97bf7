---- MODULE Tide ----
(* The tidal equation.  Instants are <<day, tick>>: day + tick/1024 days after 1899-12-31T12:00
   (day number 693595.5, the epoch of the polynomials of the Explanatory Supplement).
   Constituent tables are read from tables.json (scaled integers).  Angles are in cycles.        *)
EXTENDS Trig, Json

Tab == TLCEval(JsonDeserialize("tables.json"))
NConst == Len(Tab)
Ticks == 1024

(* A "fraction" is a number of cycles modulo 1 (or of cycles per hour, below 1) as four limbs, base 10^4,
   little-endian: the value is the sum of v[i] * 10^(4*(i-5)).  Limbs may be any (also negative) integers before
   FrCarry normalises them.                                                                                    *)
FrCarry(v) ==
  LET l1 == v[1]
      l2 == v[2] + l1 \div Base
      l3 == v[3] + l2 \div Base
      l4 == v[4] + l3 \div Base
  IN  <<l1 % Base, l2 % Base, l3 % Base, l4 % Base>>
FrPhase(v) == v[4] * Base + v[3]                       \* in units of 1/One
FrLin(a, x, b, y, c, z) == FrCarry(<<a[1]*x + b[1]*y + c[1]*z, a[2]*x + b[2]*y + c[2]*z, a[3]*x + b[3]*y + c[3]*z, a[4]*x + b[4]*y + c[4]*z>>)
FrOfBn(a) == <<Limb(a, 1), Limb(a, 2), Limb(a, 3), Limb(a, 4)>>

(* Polynomials of the Explanatory Supplement, in degrees: c0 in 1e-6 deg; c1 in 1e-10 deg/day as hi*10^8 + lo;
   c2 in 1e-8 deg/(10^4 day)^2; c3 in 1e-9 deg/(10^4 day)^3.
   Rows: s (mean longitude of the moon), h (sun), p (lunar perigee), np (minus the node), pp (perihelion).      *)
Poly == <<
  [c0 |-> 270434164,  hi |-> 1317, lo |-> 63965268, c2 |-> -8500,  c3 |-> 39],
  [c0 |-> 279696678,  hi |-> 98,   lo |-> 56473354, c2 |-> 2267,   c3 |-> 0],
  [c0 |-> 334329556,  hi |-> 11,   lo |-> 14040803, c2 |-> -77390, c3 |-> -260],
  [c0 |-> -259183275, hi |-> 5,    lo |-> 29539222, c2 |-> -15570, c3 |-> -50],
  [c0 |-> 281220844,  hi |-> 0,    lo |-> 470684,   c2 |-> 3390,   c3 |-> 70] >>
(* c1 in units of 10^-16 cycle/day, and per 20000 days and per tick, all modulo 1; c1 in 10^-16 cycle/hour *)
C1(k) == BnMulS(BnAdd(BnOf(Poly[k].lo), <<0, 0>> \o BnOf(Poly[k].hi)), 100000)      \* 1e-15 deg/day
RateDay == <<BnDivS(BnMulS(C1(1), 10), 360), BnDivS(BnMulS(C1(2), 10), 360), BnDivS(BnMulS(C1(3), 10), 360),
             BnDivS(BnMulS(C1(4), 10), 360), BnDivS(BnMulS(C1(5), 10), 360)>>
LinDay  == TLCEval([k \in 1 .. 5 |-> FrOfBn(RateDay[k])])
LinBig  == TLCEval([k \in 1 .. 5 |-> FrOfBn(BnDivS(BnMulS(BnMulS(C1(k), 10), 20000), 360))])
LinTick == TLCEval([k \in 1 .. 5 |-> FrOfBn(BnDivS(RateDay[k], Ticks))])
LinHour == TLCEval([k \in 1 .. 5 |-> FrOfBn(BnDivS(BnMulS(C1(k), 10), 8640))])

(* d / (2 * 10^6 days), fixed point, for the small quadratic and cubic terms *)
Cent(t) == t[1] * 50 + (t[2] * 50) \div Ticks
Small(k, g) == FxMul((Poly[k].c2 * 1000) \div 9, FxMul(g, g)) + FxMul((Poly[k].c3 * 20000) \div 9, FxMul(g, FxMul(g, g)))
LinArg(k, t) == FrPhase(FrLin(LinBig[k], t[1] \div 20000, LinDay[k], t[1] % 20000, LinTick[k], t[2]))
ArgPhase(k, t, g) == ((Poly[k].c0 * 5) \div 18 + LinArg(k, t) + Small(k, g)) % One

(* all that depends on the instant only *)
Astro(t) ==
  LET g == Cent(t)
      s == ArgPhase(1, t, g)  h == ArgPhase(2, t, g)
      k == (t[2] + Ticks \div 2) % Ticks
      frac == k * (One \div Ticks) + (k * (One % Ticks)) \div Ticks           \* fraction of the civil day
      \* sign of the unreduced longitude (they are positive after, negative well before 1900)
      sneg == t[1] < -20  hneg == t[1] < -284
  IN  [ph |-> <<(frac + h - s) % One, s, h, ArgPhase(3, t, g), ArgPhase(4, t, g), ArgPhase(5, t, g)>>,
       \* what the code forms: lunar time from longitudes reduced with C's fmod (keeps the sign)
       tauRaw |-> frac + (IF hneg THEN h - One ELSE h) - (IF sneg THEN s - One ELSE s)]

(* frequencies of the six variables at t, cycles per hour *)
RateSmall(k, g) == FxMul((Poly[k].c2 * 12500) \div 27, g) + FxMul((Poly[k].c3 * 125000) \div 9, FxMul(g, g))
RateArg(k, g) == FrCarry(<<LinHour[k][1] + RateSmall(k, g), LinHour[k][2], LinHour[k][3], LinHour[k][4]>>)
DayHour == <<6666, 6666, 6666, 416>>                                          \* 1/24
Rates(t) ==
  LET g == Cent(t)  s == RateArg(1, g)  h == RateArg(2, g)
  IN  <<FrLin(DayHour, 1, h, 1, s, -1), s, h, RateArg(3, g), RateArg(4, g), RateArg(5, g)>>
FreqRaw(c, r) == LET d == Tab[c].dood IN
  TLCEval([i \in 1 .. 4 |-> d[1]*r[1][i] + d[2]*r[2][i] + d[3]*r[3][i] + d[4]*r[4][i] + d[5]*r[5][i] + d[6]*r[6][i]])
FrHalve(v) == FrOfBn(BnDivS(BnTrim(v), 2))
Freq(c, r) == IF ~Tab[c].compound THEN FrCarry(FreqRaw(c, r))
              ELSE LET ps == Tab[c].parents
                       tw == FoldLeft(LAMBDA acc, p : LET f == FreqRaw(p.idx, r) IN
                                        <<acc[1] + p.c2*f[1], acc[2] + p.c2*f[2], acc[3] + p.c2*f[3], acc[4] + p.c2*f[4]>>, <<0, 0, 0, 0>>, ps)
                   IN  FrHalve(FrCarry(tw))

(* astronomical argument, cycles; half-integral multiples (M7 = 3.5 M2) halve the Doodson numbers instead *)
DotMod(dood, ph) == SumSeq([i \in 1 .. Len(dood) |-> (dood[i] * ph[i]) % One])
VSimple(c, a) == (DotMod(Tab[c].dood, a.ph) + Tab[c].semi * (One \div 4)) % One
VTimes(c, c2, a) == IF c2 % 2 = 0 THEN ((c2 \div 2) * VSimple(c, a)) % One
                    ELSE (c2 * (DotMod([i \in 1 .. 6 |-> Tab[c].dood[i] \div 2], a.ph) % One) + c2 * Tab[c].semi * (One \div 8)) % One
V(c, a) == IF ~Tab[c].compound THEN VSimple(c, a)
           ELSE SumSeq([i \in 1 .. Len(Tab[c].parents) |-> VTimes(Tab[c].parents[i].idx, Tab[c].parents[i].c2, a)]) % One
Half(c) == \E i \in 1 .. Len(Tab[c].parents) : Tab[c].parents[i].c2 % 2 = 1
(* the value the pinned code gives a half-integral compound: 3.5 * fmod(2 tau, 1)  (known finding M7) *)
VHalfAsIs(c, a) == LET v2 == RemT(2 * a.tauRaw, One) IN (7 * (v2 \div 2) + (7 * (v2 % 2)) \div 2) % One

(* ---- satellites (nodal corrections) ---- *)
EffLat(lat4) == IF Abs(lat4) >= 50000 THEN lat4 ELSE IF lat4 >= 0 THEN 50000 ELSE -50000     \* 1e-4 degrees
LatFactors(lat4) ==
  LET s == SinCyc((EffLat(lat4) * 250) \div 9)
  IN  <<FxMul(36309000, FxDiv(One - 5 * FxMul(s, s), s)), FxMul(259808000, s)>>
SatTerm(sat, a, lf) ==
  LET p == DotMod(sat.dd, <<a.ph[4], a.ph[5], a.ph[6]>>) + sat.ph * (One \div 4)
      m == IF sat.lf = 0 THEN sat.amp ELSE FxMul(sat.amp, lf[sat.lf])
  IN  CScale(m, Cis(p % One))
NodSimple(c, a, lf) == FoldLeft(LAMBDA z, s : CAdd(z, SatTerm(s, a, lf)), COne, Tab[c].sats)
(* z^(c2/2), conjugated for negative multiples: F is always a product of magnitudes *)
NodTimes(z, c2) == LET w == IF c2 < 0 THEN CConj(z) ELSE z
                       n == Abs(c2)
                   IN  IF n % 2 = 0 THEN CPow(w, n \div 2) ELSE CMul(CPow(w, n \div 2), CSqrt(w))
Nod(c, a, lf) ==
  IF ~Tab[c].compound THEN NodSimple(c, a, lf)
  ELSE FoldLeft(LAMBDA z, p : CMul(z, NodTimes(NodSimple(p.idx, a, lf), p.c2)), COne, Tab[c].parents)

(* phase advance of frequency f (cycles per hour) over dt = <<days, ticks>>, |days| <= 200000 *)
Advance(f, dt) ==
  LET cpd == FrCarry(<<24*f[1], 24*f[2], 24*f[3], 24*f[4]>>)
      cpt == FrOfBn(BnDivS(BnMulS(BnTrim(f), 3), 128))
  IN  FrPhase(FrLin(cpd, dt[1], cpt, dt[2], cpt, 0))
MinusT(a, b) == <<a[1] - b[1], a[2] - b[2]>>

(* ---- conventions ----
   phase: "Greenwich", "linear_time", "raw"; nodal: "exact", "linear_time", "none"; t0 = reference time *)
Ctx(t, t0, lat4) ==
  [a |-> Astro(t), a0 |-> Astro(t0), r0 |-> Rates(t0), dt |-> MinusT(t, t0), lf |-> LatFactors(lat4)]
Arg(c, x, phase, asis) ==
  LET v(a) == IF asis /\ Half(c) THEN VHalfAsIs(c, a) ELSE V(c, a)
  IN  CASE phase = "Greenwich" -> v(x.a)
        [] phase = "linear_time" -> (v(x.a0) + Advance(Freq(c, x.r0), x.dt)) % One
        [] phase = "raw" -> Advance(Freq(c, x.r0), x.dt)
NodArg(c, x, nodal) == CASE nodal = "exact" -> Nod(c, x.a, x.lf) [] nodal = "linear_time" -> Nod(c, x.a0, x.lf) [] nodal = "none" -> COne
(* F e^{2 pi i (V + U)} *)
Basis(c, x, phase, nodal, asis) == CMul(NodArg(c, x, nodal), Cis(Arg(c, x, phase, asis)))
====
