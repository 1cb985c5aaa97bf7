---- MODULE Order ----
(* Ordering of the reported constituents, and their energy diagnostics. *)
EXTENDS Flt, FiniteSets

Distinct(s) == Cardinality({s[i] : i \in 1 .. Len(s)}) = Len(s)
SameSet(a, b) == {a[i] : i \in 1 .. Len(a)} = {b[i] : i \in 1 .. Len(b)}
RowOf(rows, n) == rows[CHOOSE i \in 1 .. Len(rows) : rows[i].n = n]
NonIncreasing(s) == \A i \in 1 .. Len(s) - 1 : FlLeq(s[i + 1], s[i])
NonDecreasing(s) == \A i \in 1 .. Len(s) - 1 : FlLeq(s[i], s[i + 1])
\* a sequence of rows is a re-ordering of another: same constituents, everything still attached to its constituent
ReordersOnly(rows, base, same(_, _)) ==
   /\ Len(rows) = Len(base)
   /\ Distinct([i \in 1 .. Len(rows) |-> rows[i].n])
   /\ SameSet([i \in 1 .. Len(rows) |-> rows[i].n], [i \in 1 .. Len(base) |-> base[i].n])
   /\ \A i \in 1 .. Len(rows) : same(rows[i], RowOf(base, rows[i].n))
\* kind: PE, SNR, frequency, or list (with the wanted names)
Ordered(kind, want, rows) ==
  CASE kind = "PE" -> NonIncreasing([i \in 1 .. Len(rows) |-> rows[i].pe])
    [] kind = "SNR" -> NonIncreasing([i \in 1 .. Len(rows) |-> rows[i].snr])
    [] kind = "frequency" -> NonDecreasing([i \in 1 .. Len(rows) |-> rows[i].f])
    [] kind = "list" -> [i \in 1 .. Len(rows) |-> rows[i].n] = want

\* energy of a row: amp = <<A>> or <<L, l>>;  noise from its intervals
Energy(r) == FlSum([i \in 1 .. Len(r.amp) |-> FlSq(r.amp[i])])
Z95 == FlDiv(FlOf(196), FlOf(100))
NoiseVar(r) == FlSum([i \in 1 .. Len(r.ci) |-> FlSq(FlDiv(r.ci[i], Z95))])
PEOf(r, rows) == FlDiv(FlMul(FlOf(100), Energy(r)), FlSum([i \in 1 .. Len(rows) |-> Energy(rows[i])]))
SNROf(r) == FlDiv(Energy(r), NoiseVar(r))
====
