---- MODULE Load ----
(* What a saved tree of values is when loaded.  Saved values:
     [t |-> "st", f |-> sequence of [n |-> name, v |-> value]]           a structure (also the file itself)
     [t |-> "num", k |-> "f" | "i" | "c" | "b", s |-> shape, x |-> values]     numbers of any shape, row by row
     [t |-> "str", x |-> a string]   [t |-> "strs", x |-> strings]   [t |-> "cell", x |-> strings]
   Values of number arrays are integers; NaN and the infinities are the three codes below.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
NonFinite == {9001, 9002, 9003}
RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 1 ELSE s[1] * Size(Tail(s))
Squeeze(s) == SelectSeq(s, LAMBDA d : d # 1)
\* Matlab has no arrays of fewer than two dimensions: a vector is saved as a row, which squeezing undoes
RECURSIVE Loaded(_, _)
Loaded(v, masked) ==
  CASE v.t = "st" -> [t |-> "st", f |-> [i \in 1 .. Len(v.f) |-> [n |-> v.f[i].n, v |-> Loaded(v.f[i].v, masked)]]]
    [] v.t = "num" -> IF Size(v.s) = 1 THEN [t |-> "one", k |-> v.k, x |-> v.x[1]]
                      ELSE LET m == IF masked /\ v.k = "f" THEN {i \in 1 .. Len(v.x) : v.x[i] \in NonFinite} ELSE {} IN
                           [t |-> "arr", k |-> v.k, s |-> Squeeze(v.s), x |-> [i \in 1 .. Len(v.x) |-> IF i \in m THEN 0 ELSE v.x[i]], m |-> m, isma |-> m # {}]
    [] v.t = "str" -> v
    [] v.t = "strs" -> IF Len(v.x) = 1 THEN [t |-> "str", x |-> v.x[1]] ELSE v
    [] v.t = "cell" -> IF Len(v.x) = 1 THEN [t |-> "cell1", x |-> v.x] ELSE v
RECURSIVE Converted(_)
Converted(v) ==
  CASE v.t = "st" -> [t |-> "st", f |-> [i \in 1 .. Len(v.f) |-> [n |-> v.f[i].n, v |-> Converted(v.f[i].v)]]]
    [] v.t \in {"strs", "cell", "cell1"} -> [t |-> "objs", x |-> v.x]
    [] OTHER -> v
\* the names of the leaves, in the order of the structure
RECURSIVE Leaves(_, _)
Leaves(v, path) ==
  IF v.t # "st" THEN <<path>>
  ELSE FoldLeft(LAMBDA acc, i : acc \o Leaves(v.f[i].v, IF path = "" THEN v.f[i].n ELSE path \o "." \o v.f[i].n), <<>>, [i \in 1 .. Len(v.f) |-> i])
====
