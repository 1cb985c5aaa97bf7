---- MODULE UTide ----
(* The whole of an analysis and of a prediction, composed of its stages (Request, Edit, Select, Order, Recon).
   A request q: [two, trend, conf, order, method: options; faults: set of defects of the request; ss: samples; auto, list, refs, infs:
   which constituents; df: separations by name (1e-10 cycles per hour); rm: Rayleigh_min (Flt)].  Times are in ticks of 1/1024 day. *)
EXTENDS Request, Edit, Select, Recon
\* Rayleigh_min / span <= separation:  crit = rm * 1e10 * 1024 / 24
RayleighUnit == FlDiv(FlMul(FlOf(100000), FlMul(FlOf(100000), FlOf(1024))), FlOf(24))
Resolved(sep, span, rm) == FlLeq(FlMul(rm, RayleighUnit), FlMul(FlOf(sep), FlOf(span)))
Selection(q, span) == IF q.auto THEN {c \in DOMAIN q.df : Resolved(q.df[c], span, q.rm)} ELSE RangeOf(q.list)
\* what a request must produce, the numbers of the fit apart
Skeleton(q) ==
  IF q.faults # {} THEN [cls |-> Refusal(q.faults)]
  ELSE LET sel == Selection(q, Span(q.ss, q.two)) IN
       [cls |-> {"result"}, n |-> Len(Kept(q.ss, q.two)), ref2 |-> TwiceRef(q.ss, q.two), names |-> All(sel, q.refs, q.infs),
        nR |-> Cardinality(RangeOf(q.refs)), nI |-> Len(q.infs), nNR |-> Cardinality(NR(sel, q.refs, q.infs)), fields |-> Schema(q)]
====
