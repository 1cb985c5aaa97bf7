---- MODULE Select ----
(* Selection of the constituents to analyse, and the partition into directly fitted (NR), reference (R), inferred (I). *)
EXTENDS Integers, Sequences, FiniteSets
RangeOf(s) == {s[i] : i \in 1 .. Len(s)}
\* df: decision-tree separations; thr = Rayleigh_min / record length in the same unit
Auto(df, thr) == {c \in DOMAIN df : df[c] >= thr}
NR(sel, refs, infs) == sel \ (RangeOf(refs) \cup RangeOf(infs))
All(sel, refs, infs) == sel \cup RangeOf(refs) \cup RangeOf(infs)
====
