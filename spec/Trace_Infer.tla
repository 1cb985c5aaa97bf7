---- MODULE Trace_Infer ----
(* C08: e.got: the observed solution; e.ci: intervals of the reference and the inferred constituent of each pair, if there are any;
   e.pairs: the inference specification; e.want: the tide in the data, if it has the
   assumed relations (e.recover: "exact", "approx" or "no").                                                            *)
EXTENDS Infer, FiniteSets, Judge
RelTol == 60
RecTol == 80                  \* 8e-7 of the size of the tide
ApproxTol == 5000000          \* 5% of the size of the tide
InferBad(e) == IF ~e.ok THEN <<"no result: " \o e.err>> ELSE
  LET g == e.got  nm == NamesOf(g)
      have == {i \in 1 .. Len(e.pairs) : e.pairs[i].ref \in nm /\ e.pairs[i].inf \in nm}
      rel == {i \in have : ~Related(g.two, Par(g, e.pairs[i].ref), Par(g, e.pairs[i].inf), e.pairs[i], RelTol)}
      tol == IF e.recover = "exact" THEN RecTol ELSE ApproxTol
      wid == {i \in have : e.ci # <<>> /\ ~WidthsRelated(g.two, e.ci[i].ref, e.ci[i].inf, e.pairs[i], 0 - 5)}
      rec == IF e.recover = "no" THEN {} ELSE {n \in NamesOf(e.want) : n \notin nm \/ ~ParSame(g.two, Par(g, n), Par(e.want, n), tol)}
  IN  If(have # 1 .. Len(e.pairs), "an inferred or reference constituent is not reported")
      \o If(Cardinality(nm) # Len(g.cs), "a constituent appears twice")
      \o If(rel # {}, "relation to the reference: " \o ToString({<<e.pairs[i].inf, e.pairs[i].ref>> : i \in rel}))
      \o If(wid # {}, "intervals are not those of the reference, carried over: " \o ToString({<<e.pairs[i].inf, e.pairs[i].ref, e.ci[i]>> : i \in wid}))
      \o If(rec # {}, e.recover \o " recovery of " \o ToString(rec))
====
