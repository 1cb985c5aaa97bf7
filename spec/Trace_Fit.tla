---- MODULE Trace_Fit ----
(* C02: Fit(Predict(s)) = s.  Each event holds the abstract tide the data were made from and the observed solution. *)
EXTENDS Obs, FiniteSets, Judge

Tol == 60                \* 6e-7 of the size of the tide
Recover(e) ==
  LET w == e.want  g == e.got
  IN  IF g.two # w.two \/ Len(g.cs) # Len(w.cs) \/ NamesOf(g) # NamesOf(w) THEN <<"set of constituents">>
      ELSE LET badc == {n \in NamesOf(w) : ~ParSame(w.two, Par(g, n), Par(w, n), Tol)}
               badr == {n \in NamesOf(w) : ~ParRange(w.two, Par(g, n))}
           IN  (IF badc # {} THEN <<"parameters of " \o ToString(badc)>> ELSE <<>>)
            \o (IF badr # {} THEN <<"range of parameters of " \o ToString(badr)>> ELSE <<>>)
            \o (IF ~SeqNear(w.mean, g.mean, Tol) THEN <<"mean">> ELSE <<>>)
            \o (IF g.trend # w.trend THEN <<"presence of trend">>
                ELSE IF ~SeqNear(w.slope, g.slope, Tol) THEN <<"trend">> ELSE <<>>)
            \* an absent constituent has zero amplitude
            \o (IF \E n \in {e.zero[i] : i \in 1 .. Len(e.zero)} : (IF w.two THEN Par(g, n).L ELSE Par(g, n).A) > Tol THEN <<"absent constituent">> ELSE <<>>)
FitBad(e) == IF ~e.ok THEN <<"no result: " \o e.err>> ELSE Recover(e)

====
