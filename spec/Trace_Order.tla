---- MODULE Trace_Order ----
(* C09: the same analysis reported in several orders. *)
EXTENDS Order, Judge
SameRow(a, b) == Len(a.x) = Len(b.x) /\ FlNear(a.f, b.f, -6) /\ \A i \in 1 .. Len(a.x) : a.x[i] = b.x[i] \/ FlNear(a.x[i], b.x[i], -5)
SeqClose(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : Near(a[i], b[i], tol)
One1(e, o) ==
  If(~ReordersOnly(o.rows, e.orders[1].rows, SameRow), o.kind \o ": quantities not attached to their constituents")
  \o If(~Ordered(o.kind, o.want, o.rows), o.kind \o ": not in order")
  \o If(~SeqClose(o.pred, e.orders[1].pred, 20), o.kind \o ": prediction depends on the order")
  \o If(~(Len(o.single) = Len(e.orders[1].single) /\ \A i \in 1 .. Len(o.single) : SeqClose(o.single[i], e.orders[1].single[i], 20)),
        o.kind \o ": prediction of a named constituent depends on the order")
OrdBad(e) == IF ~e.ok THEN <<"no result: " \o e.err>> ELSE FoldLeft(LAMBDA acc, o : acc \o One1(e, o), <<>>, e.orders)
====
