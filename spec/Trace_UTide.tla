---- MODULE Trace_UTide ----
(* C27.  An event is a whole cycle of a request: its outcome, a prediction with a filter, and (where they were made) the analyses of the
   full prediction (e.again) and of the residual (e.resid) under the same options.
   e.ss: samples as <<tick, t ok, u ok, v ok>>; e.rm: Rayleigh_min (Flt); e.rows: per-constituent results in the order reported. *)
EXTENDS UTide, Infer, Json, Judge
Tol == 300
Tab == TLCEval(JsonDeserialize("tables.json"))
Df == TLCEval(LET S == {k \in 1 .. Len(Tab) : Tab[k].df10 # 0} IN [n \in {Tab[k].name : k \in S} |-> Tab[CHOOSE k \in S : Tab[k].name = n].df10])
Flag(x) == IF x = 1 THEN "ok" ELSE "x"
ReqOf(e) == [two |-> e.req.two, trend |-> e.req.trend, conf |-> e.req.conf, order |-> e.req.order, method |-> e.req.method,
             faults |-> RangeOf(e.faults), auto |-> e.auto, list |-> e.list, refs |-> e.refs, infs |-> e.infs, df |-> Df, rm |-> e.rm,
             ss |-> TLCEval([i \in 1 .. Len(e.ss) |-> [t |-> e.ss[i][1], tm |-> Flag(e.ss[i][2]), um |-> Flag(e.ss[i][3]), vm |-> Flag(e.ss[i][4])]])]
AllFields == UNION {Schema([two |-> a, trend |-> b, conf |-> c, order |-> d, method |-> m]) :
                    a \in BOOLEAN, b \in BOOLEAN, c \in {"linear", "none"}, d \in {"PE", "frequency"}, m \in {"ols", "robust"}}
SameSol(a, b) == /\ NamesOf(a) = NamesOf(b) /\ SeqNear(a.mean, b.mean, Tol) /\ SeqNear(a.slope, b.slope, Tol)
                 /\ \A n \in NamesOf(a) : ParSame(a.two, Par(a, n), Par(b, n), Tol)
ZeroSol(a, s) == /\ \A i \in DOMAIN a.mean : Near(a.mean[i], 0, Tol)
                 /\ \A i \in DOMAIN a.slope : Near(a.slope[i], 0, Tol)
                 /\ \A i \in DOMAIN a.cs : IF a.two THEN Near(a.cs[i].L, 0, Tol) ELSE Near(a.cs[i].A, 0, Tol)
Relations(e, o) == \A j \in 1 .. Len(e.infs) :
   Related(e.req.two, Par(o, e.refs[j]), Par(o, e.infs[j]), [r |-> e.ratio[j], z |-> e.offset[j]], 60)
ExpectAt(e, k, inc) == LET b == e.base[k] IN b + FoldLeft(LAMBDA acc, i : IF i \in inc THEN acc + (e.single[i][k] - b) ELSE acc, 0, [i \in 1 .. Len(e.rows) |-> i])
CycleBad(e, q, s) ==
  LET got == TLCEval({e.rows[i].n : i \in 1 .. Len(e.rows)})
      ci == HasCI(q)
      kind == IF q.order = "default" THEN "PE" ELSE q.order
      inc == TLCEval(Included(e.rows, e.given, RangeOf(e.wanted), e.minSNR, e.minPE, ci))
  IN  If(e.nw # s.n, "number of retained samples")
      \o If(~Near(e.ref2, s.ref2, 2), "reference time")
      \o If(got # s.names, "set of constituents: missing " \o ToString(s.names \ got) \o ", extra " \o ToString(got \ s.names))
      \o If(Len(e.rows) # Cardinality(got), "a constituent appears twice")
      \o If(e.nR # s.nR \/ e.nI # s.nI \/ e.nNR # s.nNR, "counts")
      \o If(RangeOf(e.keys) \cap AllFields # s.fields, "fields: missing " \o ToString(s.fields \ RangeOf(e.keys)) \o ", extra " \o ToString((RangeOf(e.keys) \cap AllFields) \ s.fields))
      \o If(~Ordered(kind, e.want, e.rows), "order by " \o kind)
      \o If(\E i \in 1 .. Len(e.rows) : ~FlNear(e.rows[i].pe, PEOf(e.rows[i], e.rows), -5), "PE")
      \o If(ci /\ \E i \in 1 .. Len(e.rows) : ~FlNear(e.rows[i].snr, SNROf(e.rows[i]), -5), "SNR")
      \o If(q.infs # <<>> /\ got = s.names /\ ~Relations(e, e.obs), "inferred constituents")
      \o If(Len(e.full) # Len(e.base), "length of the prediction")
      \o If(Len(e.full) = Len(e.base) /\ \E k \in 1 .. Len(e.full) : ~Near(e.full[k], ExpectAt(e, k, inc), Tol), "prediction is not that of " \o ToString({e.rows[i].n : i \in inc}))
      \o If(e.again # <<>> /\ ~SameSol(e.again[1], e.obs), "analysing the prediction again gives another solution")
      \o If(e.resid # <<>> /\ ~ZeroSol(e.resid[1], 1), "the residual contains the tide")
UTideBad(e) == LET q == TLCEval(ReqOf(e))  s == TLCEval(Skeleton(q)) IN
  IF \A c \in s.cls : \A i \in 1 .. Len(e.cls) : e.cls[i] # c THEN <<"outcome " \o ToString(e.cls) \o " " \o e.err \o " instead of " \o ToString(s.cls)>>
  ELSE IF s.cls # {"result"} THEN <<>> ELSE IF ~e.ok THEN <<"after the analysis: " \o e.err>> ELSE CycleBad(e, q, s)
====
