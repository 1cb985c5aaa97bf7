---- MODULE Trace_Calib ----
(* C17.  A session is an ensemble: the tide, the noise, then one event per realisation with the estimates and their intervals, then
   the end.  Of constituents related by inference one for each reference is judged, by coverage only.  The monitor counts intervals that contain the truth, kind by kind, and adds the squares of the ratios of the intervals
   to the textbook ones, constituent by constituent; at the end both are compared with Calib.
   Parameters and intervals are integers: lengths in 1e-8 of the tide's size, angles in 1e-6 degree.                         *)
EXTENDS SJudge, Calib, FiniteSets
Turn180 == 180000000
Fold(x, half) == ((x + half) % (2 * half)) - half              \* into [-half, half)
(* errors of <<A, g>> or <<L, l, theta, g>>: (theta, g) and (theta + 180, g + 180) are the same ellipse *)
Err(two, est, tru) ==
  IF ~two THEN << est[1] - tru[1], Fold(est[2] - tru[2], Turn180) >>
  ELSE LET d == est[3] - tru[3]
           r == Fold(d, Turn180 \div 2)
           g == est[4] - tru[4] + (r - d)
       IN  << est[1] - tru[1], est[2] - tru[2], r, Fold(g, Turn180) >>
Unit == FlPow10(-8)
Micro == FlPow10(-6)
Kinds(two) == IF two THEN <<"Lsmaj", "Lsmin", "theta", "g">> ELSE <<"A", "g">>
Text2(h, c) == \* squared textbook widths of the constituent c, in the units of the recorded integers
  LET tl(i) == FlMul(FlOf(c.tru[i]), Unit)
      w2 == IF h.two THEN Ellipse2(h.S, h.n, c.F, tl(1), tl(2), c.tru[3])
            ELSE LET a2 == Half2(h.S[1], h.n, c.F) IN << a2, ScalarPhase2(a2, tl(1)) >>
      K == Kinds(h.two)
  IN  [j \in DOMAIN K |-> FlDiv(w2[j], FlSq(IF K[j] \in {"theta", "g"} THEN Micro ELSE Unit))]
CalStart(e) == IF e.kind = "few" THEN [h |-> e, N |-> 0, c2 |-> [j \in DOMAIN Kinds(e.two) |-> FlZero], e2 |-> [j \in DOMAIN Kinds(e.two) |-> FlZero]] ELSE
            [h |-> e, N |-> 0, cov |-> [j \in 1 .. Len(Kinds(e.two)) |-> 0],
             w2 |-> TLCEval([c \in DOMAIN e.cs |-> Text2(e, e.cs[c])]),
             ss |-> [c \in DOMAIN e.cs |-> [j \in 1 .. Len(Kinds(e.two)) |-> FlZero]]]
Run(m, e) ==
  LET K == 1 .. Len(Kinds(m.h.two))
      err == TLCEval([c \in DOMAIN m.h.cs |-> Err(m.h.two, e.est[c], m.h.cs[c].tru)])
      hit(j) == Cardinality({c \in DOMAIN m.h.cs : Abs(err[c][j]) <= e.ci[c][j]})
      wild == {c \in DOMAIN m.h.cs : \E j \in K : e.ci[c][j] >= 1000000000 \/ e.ci[c][j] < 0 \/ Abs(e.est[c][j]) >= 1000000000}
  IN  [st |-> [m EXCEPT !.N = @ + 1,
                        !.cov = TLCEval([j \in K |-> @[j] + hit(j)]),
                        !.ss = IF wild # {} THEN @
                               ELSE TLCEval([c \in DOMAIN m.h.cs |-> [j \in K |-> FlAdd(@[c][j], FlDiv(FlSq(FlOf(e.ci[c][j])), m.w2[c][j]))]])],
       why |-> If(wild # {}, "interval or estimate is not a number")]
(* permille bounds of the root mean square ratio *)
Lo(h) == CASE h.kind = "coloured" -> 500 [] h.kind = "long" -> IF h.mc THEN 920 ELSE 950 [] OTHER -> IF h.mc THEN 860 ELSE 890
Hi(h) == CASE h.kind = "coloured" -> 2000 [] h.kind = "long" -> IF h.mc THEN 1110 ELSE 1080 [] OTHER -> 1300
Permille2(k) == FlDiv(FlOf(k * k), FlPow10(6))
Allow(h) == (IF h.mc THEN 15 ELSE 8) + (IF h.kind = "long" THEN 0 ELSE 10)
End(m) ==
  LET h == m.h
      K == 1 .. Len(Kinds(h.two))
      T == m.N * Len(h.cs)
      outc == {j \in K : ~(m.cov[j] >= CoverMin(T, Allow(h)) /\ m.cov[j] <= CoverMax(T, Allow(h)))}
      ms(c, j) == FlDiv(m.ss[c][j], FlOf(m.N))
      wrong == {<<c, j>> \in {x \in DOMAIN h.cs : h.cs[x].direct} \X K : ~(FlLeq(Permille2(Lo(h)), ms(c, j)) /\ FlLeq(ms(c, j), Permille2(Hi(h))))}
  IN  [st |-> m,
       why |-> If(h.kind # "coloured" /\ outc # {}, "coverage out of " \o ToString(T) \o ": " \o ToString({<<Kinds(h.two)[j], m.cov[j]>> : j \in outc}))
            \o If(wrong # {}, "width against textbook (squared ratio): "
                    \o ToString({<<h.cs[p[1]].n, Kinds(h.two)[p[2]], ms(p[1], p[2])>> : p \in wrong}))]
(* few samples for the number of parameters: an interval squared is expected to be 1.96^2 times the error squared *)
FlTotal(f(_), n) == LET S[i \in 0 .. n] == IF i = 0 THEN FlZero ELSE FlAdd(S[i - 1], f(i)) IN S[n]
FewRun(m, e) ==
  LET K == 1 .. Len(Kinds(m.h.two))
      n == Len(m.h.cs)
      err == TLCEval([c \in 1 .. n |-> Err(m.h.two, e.est[c], e.tru[c])])
      wild == {c \in 1 .. n : \E j \in K : e.ci[c][j] >= 1000000000 \/ e.ci[c][j] < 0 \/ Abs(e.est[c][j]) >= 1000000000}
  IN  [st |-> IF wild # {} THEN m
              ELSE [m EXCEPT !.N = @ + 1,
                             !.c2 = TLCEval([j \in K |-> FlAdd(@[j], FlTotal(LAMBDA c : FlSq(FlOf(e.ci[c][j])), n))]),
                             !.e2 = TLCEval([j \in K |-> FlAdd(@[j], FlTotal(LAMBDA c : FlSq(FlOf(err[c][j])), n))])],
       why |-> If(wild # {}, "interval or estimate is not a number")]
FewSd(T) == ISqrt((1000000 * 2) \div T + 1)                       \* permille: sd of the mean of T squares of normal deviates
FewEnd(m) ==
  LET K == 1 .. Len(Kinds(m.h.two))
      d == 20 + (11 * FewSd(m.N * Len(m.h.cs))) \div 2
      ms(j) == FlDiv(m.c2[j], FlMul(FlDiv(Z2, E4), m.e2[j]))
      wrong == {j \in K : ~(FlLeq(FlDiv(FlOf(1000 - d), FlOf(1000)), ms(j)) /\ FlLeq(ms(j), FlDiv(FlOf(1000 + d), FlOf(1000))))}
  IN  [st |-> m, why |-> If(wrong # {}, "few samples: intervals against errors (squared ratio, +-" \o ToString(d) \o " permille): "
                                         \o ToString({<<Kinds(m.h.two)[j], ms(j)>> : j \in wrong}))]
CalStep(m, e) == IF m.h.kind = "few"
                 THEN IF e.k = "hdr" THEN [st |-> m, why |-> <<>>]
                      ELSE IF e.k = "run" THEN IF e.ok THEN FewRun(m, e) ELSE [st |-> m, why |-> <<"no result: " \o e.err>>]
                      ELSE FewEnd(m)
                 ELSE IF e.k = "hdr" THEN [st |-> m, why |-> <<>>]
                 ELSE IF e.k = "run" THEN IF e.ok THEN Run(m, e) ELSE [st |-> m, why |-> <<"no result: " \o e.err>>]
                 ELSE End(m)
====
