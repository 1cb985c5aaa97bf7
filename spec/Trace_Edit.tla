---- MODULE Trace_Edit ----
(* C04.  An event is one set of samples analysed in several equivalent forms.  e.ss: the samples as <<tick, t ok, u ok, v ok>>;
   e.res: the results [form, pre, ref2, nw, names, obs, x]: pre = which samples were supplied ("all", "timed", "kept");
   e.sel: names an automatic selection gives for the span of the timed / of the retained samples.                            *)
EXTENDS Obs, Edit, Flt, FiniteSets, Judge
Tol == 200
Ss(e) == [i \in 1 .. Len(e.ss) |-> [t |-> e.ss[i][1], tm |-> IF e.ss[i][2] = 1 THEN "ok" ELSE "x", um |-> IF e.ss[i][3] = 1 THEN "ok" ELSE "x",
                                   vm |-> IF e.ss[i][4] = 1 THEN "ok" ELSE "x"]]
Set(s) == {s[i] : i \in 1 .. Len(s)}
SameSol(a, b) == /\ NamesOf(a) = NamesOf(b) /\ SeqNear(a.mean, b.mean, Tol) /\ SeqNear(a.slope, b.slope, Tol)
                 /\ \A n \in NamesOf(a) : ParSame(a.two, Par(a, n), Par(b, n), Tol)
EditBad(e) == IF ~e.ok THEN <<"no result: " \o e.err>> ELSE
  LET ss == TLCEval(Ss(e))  td == TLCEval(Timed(ss))  kp == TLCEval(Kept(ss, e.two))
      even == Even(td)
      \* without its missing samples the record is the same record unless the times were evenly spaced
      in == {i \in 1 .. Len(e.res) : e.res[i].pre # "kept" \/ ~even}
      base == e.res[1]
      wantspan == IF even THEN e.sel.timed ELSE e.sel.kept
  IN  If(\E i \in in : ~Near(e.res[i].ref2, TwiceRef(ss, e.two), 2), "reference time")
      \o If(\E i \in in : e.res[i].nw # Len(kp), "number of retained samples")
      \o If(e.auto /\ \E i \in in : Set(e.res[i].names) # Set(wantspan), "span used for selection")
      \o LET b == {i \in in : ~(SameSol(e.res[i].obs, base.obs) /\ Len(e.res[i].x) = Len(base.x)
                                /\ \A k \in 1 .. Len(base.x) : e.res[i].x[k] = base.x[k] \/ FlNear(e.res[i].x[k], base.x[k], -5))}
         IN If(b # {}, "result depends on the marking: " \o ToString({e.res[i].form : i \in b}))
====
