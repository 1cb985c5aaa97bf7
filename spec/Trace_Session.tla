---- MODULE Trace_Session ----
(* C18, C19, C21: the monitor of a session (MC_Session with its invariants, on recorded events).
   fresh: outcome of a request alone in a fresh process (class, signature; and after Monte Carlo the random state);
   call:  outcome in the session, with the random state, the published tables and the arguments before and after;
   touch: something was changed in place by the caller (what: args, result); signatures of a held result and of its predictions
          before and after, tables and random state before and after.
   A signature is a sequence of [p |-> field, s |-> text or "", m |-> scale (Flt), x |-> integers relative to the scale].        *)
EXTENDS SJudge, Flt, FiniteSets
SesStart(e) == [fresh |-> <<>>]
Field(a, b) == a.p = b.p /\ a.s = b.s /\ Len(a.x) = Len(b.x) /\ FlNear(a.m, b.m, 0 - 6) /\ \A i \in DOMAIN a.x : Abs(a.x[i] - b.x[i]) <= 20
Diff(a, b) ==
  IF [i \in DOMAIN a |-> a[i].p] # [i \in DOMAIN b |-> b[i].p] THEN {"fields"}
  ELSE {a[i].p : i \in {j \in DOMAIN a : ~Field(a[j], b[j])}}
Estimates(a) == SelectSeq(a, LAMBDA f : f.est)
Has(m, k) == \E i \in DOMAIN m.fresh : m.fresh[i].key = k
Fresh(m, k) == m.fresh[CHOOSE i \in DOMAIN m.fresh : m.fresh[i].key = k]
Common(e) ==
     If(e.tab0 # e.tab1, "C18: published tables changed")
  \o If(e.args # <<>>, "C19: arguments changed: " \o ToString(e.args))
CallBad(m, e) ==
  LET f == Fresh(m, e.key)
      d == Diff(e.sig, f.sig)
  IN  IF ~Has(m, e.key) THEN <<"C18: no reference">> ELSE
      Common(e)
   \o If(e.cls # f.cls, "C18: outcome " \o e.cls \o " instead of " \o f.cls)
   \o If(e.cls = f.cls /\ d # {}, (IF e.mc /\ d \cap {"fields"} = {} /\ \A x \in d : \E i \in DOMAIN e.sig : e.sig[i].p = x /\ ~e.sig[i].est THEN "C21" ELSE "C18")
                                  \o ": differs from the call alone: " \o ToString(d))
   \o If(~e.mc /\ e.rng0 # e.rng1, "C21: random state changed")
   \o If(e.mc /\ e.rng1 # f.rng1, "C21: random state after the call differs from the call alone")
TouchBad(e) ==
     If(e.tab0 # e.tab1, "C18: changing " \o e.what \o " changes the published tables")
  \o If(Diff(e.sig0, e.sig1) # {}, "C19: changing " \o e.what \o " changes a result: " \o ToString(Diff(e.sig0, e.sig1)))
  \o If(Diff(e.pre0, e.pre1) # {}, "C19: changing " \o e.what \o " changes predictions")
  \o If(e.rng0 # e.rng1, "C21: random state changed")
(* the same Monte Carlo request with other seeds: the estimates agree *)
FreshBad(m, e) == LET o == {i \in DOMAIN m.fresh : m.fresh[i].r = e.r /\ m.fresh[i].key # e.key} IN
  If(e.mc /\ e.bypos /\ \E i \in o : Diff(Estimates(m.fresh[i].sig), Estimates(e.sig)) # {}, "C21: estimates depend on the seed")
SesStep(m, e) ==
  CASE e.k = "fresh" -> [st |-> [m EXCEPT !.fresh = Append(@, e)], why |-> FreshBad(m, e)]
    [] e.k = "call" -> [st |-> m, why |-> CallBad(m, e)]
    [] e.k = "touch" -> [st |-> m, why |-> TouchBad(e)]
====
