---- MODULE Trace_Band ----
(* C23.  Squared interval half-widths are compared with what the noise in the bands implies.  Lengths in units of 1e-8 of the tide.
   scale: the same tide and background noise with 0, 1 and 3 times the same noise confined to one band; S: its spectral density
          (Flt, one-sided, per cph), T: record length in hours, ny: Nyquist frequency of the mean sampling (1e-8 cph);
          cs: constituents with frequency f8 and their intervals c0, c1, c3 (along the disturbed component), x0, x3 (across it),
          w0, w3 (white); n, s0, s3: samples, total noise variance (Flt) for 0 and 3.
   tide:  intervals of the same noise under tides of different size.
   line:  band averages of band_psd for a spectral line at a listed constituent (on) and listed elsewhere (off), by component.
   parts: band averages of band_psd for velocities (uu, vv, uv), for either component alone (u, v), for their sum (w) and for the
          velocities turned by a right angle (ru, rv, ruv).
   corr:  u and v correlated within a band, with the opposite sign within another: cs: constituents with sgn, the sign along their
          major axis (0: neither band), and intervals maj, min.
   even:  mean square intervals of one process sampled evenly (a) and unevenly (b).                                            *)
EXTENDS Judge, Band, Flt
Sq(x) == FlSq(FlOf(x))
Between(x, lo, hi) == FlLeq(lo, x) /\ FlLeq(x, hi)
Pm2(k) == FlDiv(FlOf(k * k), FlPow10(6))                     \* square of a permille
R2(a, b) == FlDiv(Sq(a), Sq(b))
Nan(x) == x >= 1000000000
Names(s) == ToString({c.n : c \in s})
Z2 == FlDiv(FlOf(38416), FlPow10(4))
(* 1.96^2 S/T, in the recorded units *)
Text2(e) == FlMul(FlDiv(FlMul(Z2, e.S), FlOf(e.T)), FlPow10(16))
Total2(e, s) == FlMul(FlDiv(FlMul(FlMul(Z2, FlOf(2)), s), FlOf(e.n)), FlPow10(16))
ScaleBad(e) ==
  LET C == {e.cs[i] : i \in DOMAIN e.cs}
      own == {c \in C : InBand(c.f8, e.b)}
      far == {c \in C : ~InBand(c.f8, e.b)}
      \* a straight line across a gap has low frequencies
      farg == {c \in far : ~(e.gap /\ InBand(c.f8, 1))}
      t2 == Text2(e)
      lo == IF e.mc THEN 2000 ELSE 2500
      hi == IF e.mc THEN 4500 ELSE 3500
      abslo == IF e.b = 1 THEN 120 ELSE 240
      \* aliased by uneven sampling: density spread evenly
      floor == FlMul(FlOf(4), FlDiv(FlOf(Width8(e.b)), FlOf(e.ny)))
      nan == {c \in C : \E x \in {c.c0, c.c1, c.c3, c.x0, c.x3, c.w0, c.w3} : Nan(x)}
  IN  IF nan # {} THEN <<"interval is not a number: " \o Names(nan)>> ELSE
      If({c \in own : ~Between(R2(c.c3, c.c1), Pm2(lo), Pm2(hi))} # {}, "not raised with the noise of its band: " \o Names({c \in own : ~Between(R2(c.c3, c.c1), Pm2(lo), Pm2(hi))}))
   \o If({c \in own : ~Between(FlDiv(FlMul(Sq(c.c1), FlSq(c.F)), t2), Pm2(abslo), Pm2(1800))} # {},
         "not the noise of its band: " \o ToString({<<c.n, FlDiv(FlMul(Sq(c.c1), FlSq(c.F)), t2)>> : c \in own}))
   \o (IF e.even THEN If({c \in far : ~Between(R2(c.c3, c.c0), Pm2(600), Pm2(IF e.mc THEN 1600 ELSE 1250))} # {},
                         "follows noise of another band: " \o Names({c \in far : ~Between(R2(c.c3, c.c0), Pm2(600), Pm2(1250))}))
       ELSE If({c \in farg : ~FlLeq(FlMul(Sq(c.c3), FlSq(c.F)), FlAdd(FlMul(FlMul(FlOf(9), t2), floor), FlMul(FlOf(2), FlMul(Sq(c.c0), FlSq(c.F)))))} # {}, "follows noise of another band (uneven)"))
   \o If(e.two /\ {c \in C : ~FlLeq(Sq(c.x3), FlAdd(FlMul(Pm2(IF e.mc THEN 1900 ELSE 1400), Sq(c.x0)), FlMul(Pm2(150), Sq(c.c3))))} # {},
         "follows the noise of the other component: " \o Names({c \in C : ~FlLeq(Sq(c.x3), FlAdd(FlMul(Pm2(IF e.mc THEN 1900 ELSE 1400), Sq(c.x0)), FlMul(Pm2(150), Sq(c.c3))))}))
   \o (LET w(c, x, s) == FlDiv(FlMul(Sq(x), FlSq(c.F)), Total2(e, s))
           off == {c \in C : ~(Between(w(c, c.w0, e.s0), Pm2(e.wlo), Pm2(e.whi)) /\ Between(w(c, c.w3, e.s3), Pm2(e.wlo), Pm2(e.whi)))}
       IN  If(off # {}, "white intervals don't follow the total variance: " \o ToString({<<c.n, w(c, c.w0, e.s0), w(c, c.w3, e.s3)>> : c \in off})))
TideBad(e) == LET off == {i \in DOMAIN e.n : \E j \in DOMAIN e.a[i] : ~FlNear(e.a[i][j], e.b[i][j], 0 - 5)}
              IN  If(off # {}, "the size of the tide counts as noise: " \o ToString({e.n[i] : i \in off}))
\* a Hann-windowed line has 1/6 of its power on either side of its frequency
LineBad(e) == If(\E j \in DOMAIN e.on : ~FlLeq(e.on[j], FlMul(Pm2(700), e.off[j])), "energy at an analysed constituent counts as noise")
EvenBad(e) == LET off == {i \in DOMAIN e.n : ~Between(FlDiv(e.b[i], e.a[i]), Pm2(e.lo), Pm2(e.hi))}
              IN  If(off # {}, "even and uneven sampling disagree: " \o ToString({<<e.n[i], FlDiv(e.b[i], e.a[i])>> : i \in off}))
PartsBad(e) ==
  LET D == DOMAIN e.u
      near(a, b) == FlNear(a, b, 0 - 7)
      pol(i) == FlAdd(FlAdd(e.uu[i], e.vv[i]), FlMul(FlOf(2), e.uv[i]))
      size(i) == FlAdd(e.uu[i], e.vv[i])
      tiny(a, i) == FlLeq(FlAbs(a), FlMul(FlPow10(0 - 6), size(i)))
  IN  If(\E i \in D : ~near(e.uu[i], e.u[i]), "spectrum of u with v is not that of u") \o If(\E i \in D : ~near(e.vv[i], e.v[i]), "spectrum of v with u is not that of v")
   \o If(\E i \in D : ~tiny(FlSub(pol(i), e.w[i]), i), "spectrum of u + v is not the sum of the spectra and twice the co-spectrum")
   \o If(\E i \in D : ~(tiny(FlSub(e.ru[i], e.vv[i]), i) /\ tiny(FlSub(e.rv[i], e.uu[i]), i) /\ tiny(FlAdd(e.ruv[i], e.uv[i]), i)), "spectra do not turn with the velocities")
CorrBad(e) == LET off == {i \in DOMAIN e.cs : LET c == e.cs[i] a == IF c.sgn > 0 THEN c.maj ELSE c.min x == IF c.sgn > 0 THEN c.min ELSE c.maj
                                               IN  c.sgn # 0 /\ ~(~Nan(a) /\ ~Nan(x) /\ FlLeq(FlMul(FlOf(4), Sq(x)), Sq(a)))}
              IN  If(off # {}, "intervals of the axes don't follow the correlation of the noise in the band: " \o ToString({e.cs[i] : i \in off}))
BandBad(e) == IF ~e.ok THEN <<"no result: " \o e.err>>
              ELSE CASE e.k = "scale" -> ScaleBad(e) [] e.k = "tide" -> TideBad(e) [] e.k = "line" -> LineBad(e) [] e.k = "even" -> EvenBad(e) [] e.k = "parts" -> PartsBad(e) [] e.k = "corr" -> CorrBad(e)
====
