---- MODULE Recon ----
(* Which constituents a reconstruction includes, and the time axis of its result. *)
EXTENDS Order

\* request: constit = FALSE or a set of names (given); thresholds are Flt numbers
Included(rows, given, wanted, minSNR, minPE, hasCI) ==
  IF given THEN {i \in 1 .. Len(rows) : rows[i].n \in wanted}
  ELSE {i \in 1 .. Len(rows) : FlLeq(minPE, rows[i].pe) /\ (hasCI => FlLeq(minSNR, rows[i].snr))}

\* element of a time array: a token naming an instant, and how the element is marked
Marks == {"ok", "nan", "inf", "nat", "masked"}
Missing(x) == x.m # "ok"
====
