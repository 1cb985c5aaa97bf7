---- MODULE MC_UTide ----
(* The pipeline as a machine: Submit, Refuse | Edit, Select, Fit, Diagnose, Reorder, Return; then Predict with a filter, and a second
   analysis of the prediction or of the residual under the same request.  Data are vectors over orthogonal directions: one per
   constituent and one ("eps") that no constituent describes; the coefficients are multiplied by 5 so that the fit of a reference
   tied to an inferred constituent (twice the reference) stays integral.  Every small request and datum is explored.
   Fault: a defect (mutants).                                                                                                    *)
EXTENDS UTide
CONSTANTS Fault
Con == {"a", "b", "c"}
Dirs == Con \cup {"eps"}
DfOf == [c \in Con |-> CASE c = "a" -> 2 [] c = "b" -> 4 [] c = "c" -> 8]
Smp(t, tm, um) == [t |-> t, tm |-> tm, um |-> um, vm |-> "ok"]
M2 == {"ok", "nan"}
\* four samples (even, uneven); Rayleigh criterion such that a span of 3 resolves b and c, a span of 2 only c, of 6 everything
Series == {<<Smp(g[1], m[1], "ok"), Smp(g[2], "ok", m[2]), Smp(g[3], m[3], "ok"), Smp(g[4], m[4], m[5])>> :
            g \in {<<0, 1, 2, 3>>, <<0, 1, 4, 6>>}, m \in [1 .. 5 -> M2]}
Lists == {<<>>, <<"a", "b">>, <<"c">>, <<"b", "c">>}
Ties == {<<>>, <<"b">>, <<"c">>}                           \* the reference; "a" is inferred from it
Datum == [a : {0, 5}, b : {5, -10}, c : {10}, eps : {0, 5}]
\* crit = rm * RayleighUnit: choose rm = 10 / RayleighUnit, i.e. separation * span >= 10
Rm == FlDiv(FlOf(10), RayleighUnit)
ReqOf(ss, auto, list, refs, order, conf, faults) ==
  [two |-> FALSE, trend |-> FALSE, conf |-> conf, order |-> order, method |-> "ols", faults |-> faults, ss |-> ss, auto |-> auto, list |-> list,
   refs |-> refs, infs |-> IF refs = <<>> THEN <<>> ELSE <<"a">>, df |-> DfOf, rm |-> Rm]
VARIABLES pc, q, dat, wk, sol, first, pred
vars == <<pc, q, dat, wk, sol, first, pred>>
Nil == [k |-> "none"]
Init == pc = "start" /\ q = Nil /\ dat = Nil /\ wk = Nil /\ sol = Nil /\ first = Nil /\ pred = Nil
Submit == /\ pc = "start"
          /\ \E ss \in Series, auto \in BOOLEAN, list \in Lists, refs \in Ties, order \in {"PE", "list", "SNR"}, conf \in {"linear", "none"}, fs \in {{}, {"bad_conf"}, {"no_latitude", "unknown_constit"}} :
               /\ auto <=> list = <<>>
               /\ refs # <<>> => conf = "linear"
               /\ Kept(ss, FALSE) # <<>> /\ (fs # {} => refs = <<>> /\ auto)
               /\ q' = ReqOf(ss, auto, list, refs, order, conf, IF order = "SNR" /\ conf = "none" THEN fs \cup {"snr_without_ci"} ELSE fs)
          /\ dat' \in Datum /\ pc' = "check"
          /\ UNCHANGED <<wk, sol, first, pred>>
Check == /\ pc = "check"
         /\ IF q.faults # {} THEN pc' = "refused" /\ \E f \in q.faults : \E c \in FaultOutcome[f] : sol' = [cls |-> c] ELSE pc' = "edit" /\ UNCHANGED sol
         /\ UNCHANGED <<q, dat, wk, first, pred>>
DoEdit == /\ pc = "edit"
          /\ LET td == Timed(q.ss)  kp == SelectSeq(td, LAMBDA s : DataOk(s, FALSE))
                 r == IF Fault = "rawspan" THEN q.ss ELSE IF Even(td) THEN td ELSE kp
             IN  wk' = [n |-> Len(kp), ref2 |-> r[1].t + r[Len(r)].t, span |-> r[Len(r)].t - r[1].t]
          /\ pc' = "select" /\ UNCHANGED <<q, dat, sol, first, pred>>
DoSelect == /\ pc = "select"
            /\ LET sel == Selection(q, wk.span)
                   direct == IF Fault = "keepsref" THEN sel ELSE sel \ (RangeOf(q.refs) \cup RangeOf(q.infs))
               IN  wk' = wk @@ [nr |-> SetToSeq(direct), r |-> q.refs, i |-> q.infs]
            /\ pc' = "fit" /\ UNCHANGED <<q, dat, sol, first, pred>>
\* x minimises (d[r] - x)^2 + (d[a] - 2x)^2
TiedFit(r) == IF Fault = "untied" THEN dat[r] ELSE (dat[r] + 2 * dat["a"]) \div 5
DoFit == /\ pc = "fit"
         /\ LET nms == wk.nr \o wk.r \o wk.i
                est == [j \in 1 .. Len(nms) |-> IF j <= Len(wk.nr) THEN dat[nms[j]]
                                                 ELSE IF j <= Len(wk.nr) + Len(wk.r) THEN TiedFit(nms[j])
                                                 ELSE IF Fault = "untied" THEN dat["a"] ELSE 2 * TiedFit(wk.r[1])]
            IN  sol' = [names |-> nms, est |-> est]
         /\ pc' = "diagnose" /\ UNCHANGED <<q, dat, wk, first, pred>>
DoDiagnose == /\ pc = "diagnose"
              /\ LET en == [j \in 1 .. Len(sol.est) |-> sol.est[j] * sol.est[j]]
                 IN  sol' = sol @@ [pe |-> en, snr |-> en] /\ pc' = "reorder"
              /\ UNCHANGED <<q, dat, wk, first, pred>>
Perms(n) == {p \in [1 .. n -> 1 .. n] : \A a, b \in 1 .. n : a # b => p[a] # p[b]}
DoReorder == /\ pc = "reorder"
             /\ LET n == Len(sol.names) IN
                \E p \in Perms(n) :
                   /\ q.order \in {"PE", "SNR"} => \A j \in 1 .. n - 1 : sol.pe[p[j]] >= sol.pe[p[j + 1]]
                   /\ q.order = "list" => p = [j \in 1 .. n |-> n + 1 - j]
                   /\ sol' = [names |-> [j \in 1 .. n |-> sol.names[p[j]]], est |-> IF Fault = "halforder" THEN sol.est ELSE [j \in 1 .. n |-> sol.est[p[j]]],
                              pe |-> [j \in 1 .. n |-> sol.pe[p[j]]], snr |-> [j \in 1 .. n |-> sol.snr[p[j]]], n |-> wk.n, ref2 |-> wk.ref2]
             /\ pc' = IF first = Nil THEN "returned" ELSE "again"
             /\ UNCHANGED <<q, dat, wk, first, pred>>
EstOf(s, d) == IF \E j \in 1 .. Len(s.names) : s.names[j] = d THEN s.est[CHOOSE j \in 1 .. Len(s.names) : s.names[j] = d] ELSE 0
Rows == [j \in 1 .. Len(sol.names) |-> [n |-> sol.names[j], pe |-> FlOf(sol.pe[j]), snr |-> FlOf(sol.snr[j])]]
DoPredict == /\ pc = "returned"
             /\ \E thr \in {0, 30} :
                  LET inc == Included(Rows, FALSE, {}, FlOf(thr), FlZero, q.conf # "none" /\ Fault # "filteralways")
                      full == IF Fault = "filteralways" /\ q.conf = "none" THEN {j \in 1 .. Len(Rows) : FlLeq(FlOf(thr), Rows[j].snr)} ELSE inc
                  IN  pred' = [thr |-> thr, of |-> {sol.names[j] : j \in full}, dat |-> [d \in Dirs |-> IF \E j \in full : sol.names[j] = d THEN EstOf(sol, d) ELSE 0]]
             /\ pc' = "predicted" /\ UNCHANGED <<q, dat, wk, sol, first>>
\* analysed again: the full prediction, or what it leaves
Again == /\ pc = "predicted" /\ pred.of = RangeOf(sol.names)
         /\ \E res \in BOOLEAN : /\ dat' = [d \in Dirs |-> IF res THEN dat[d] - pred.dat[d] ELSE pred.dat[d]]
                                 /\ first' = [sol |-> sol, res |-> res, dat |-> dat]
         /\ pc' = "check" /\ sol' = Nil /\ UNCHANGED <<q, wk, pred>>
Next == Submit \/ Check \/ DoEdit \/ DoSelect \/ DoFit \/ DoDiagnose \/ DoReorder \/ DoPredict \/ Again
Spec == Init /\ [][Next]_vars
----
AsComposed == pc \in {"returned", "again"} =>
  LET s == Skeleton(q) IN /\ "result" \in s.cls /\ s.n = sol.n /\ s.ref2 = sol.ref2
                          /\ s.names = RangeOf(sol.names) /\ Len(sol.names) = Cardinality(s.names)
                          /\ s.nNR + s.nR + s.nI = Cardinality(s.names)
Refusals == pc = "refused" => sol.cls \in Skeleton(q).cls
Attached == pc \in {"returned", "again"} => \A j \in 1 .. Len(sol.names) : sol.pe[j] = sol.est[j] * sol.est[j]
Tied == pc \in {"returned", "again"} /\ q.refs # <<>> => EstOf(sol, "a") = 2 * EstOf(sol, q.refs[1])
Filtered == pc = "predicted" => pred.of = {sol.names[j] : j \in Included(Rows, FALSE, {}, FlOf(pred.thr), FlZero, q.conf # "none")}
Projection == pc = "again" => IF first.res THEN \A j \in 1 .. Len(sol.est) : sol.est[j] = 0
                              ELSE \A c \in Con : EstOf(sol, c) = EstOf(first.sol, c)
====
