---- MODULE MC_Select ----
(* The bookkeeping of the selection step by step over all small requests: table of N constituents with separations 0..3,
   automatic or listed selection, up to two inference pairs.  Bug selects a faulty variant.                               *)
EXTENDS Select, TLC
CONSTANTS N, Bug
C == 1 .. N
VARIABLES df, thr, list, auto, pairs, out, st
vars == <<df, thr, list, auto, pairs, out, st>>
Init == st = 0 /\ df = <<>> /\ thr = 0 /\ list = {} /\ auto = TRUE /\ pairs = <<>> /\ out = <<>>
Table == st = 0 /\ st' = 1 /\ df' \in [C -> 0 .. 2] /\ thr' \in 0 .. 3 /\ UNCHANGED <<list, auto, pairs, out>>
Req == /\ st = 1 /\ st' = 2 /\ auto' \in BOOLEAN
       /\ list' \in (IF auto' THEN {{}} ELSE SUBSET C)
       /\ UNCHANGED <<df, thr, pairs, out>>
\* pairs <<reference, inferred>>: inferred ones are distinct and never references
AddPair == /\ st = 2 /\ Len(pairs) < 2
           /\ \E r \in C, i \in C : /\ r # i
                                    /\ \A k \in 1 .. Len(pairs) : pairs[k][2] # i /\ pairs[k][2] # r /\ pairs[k][1] # i
                                    /\ pairs' = Append(pairs, <<r, i>>)
           /\ UNCHANGED <<df, thr, list, auto, out, st>>
Sel == IF auto THEN (IF Bug = "tie" THEN {c \in C : df[c] > thr} ELSE {c \in C : df[c] >= thr}) ELSE list
Refs == [k \in 1 .. Len(pairs) |-> pairs[k][1]]
Infs == [k \in 1 .. Len(pairs) |-> pairs[k][2]]
\* the code's lists: NR in table order, unique references in order of appearance, inferred grouped by reference
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE LET u == Uniq(SubSeq(s, 1, Len(s) - 1)) IN IF s[Len(s)] \in RangeOf(u) THEN u ELSE Append(u, s[Len(s)])
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o Sorted(S \ {m})
UR == IF Bug = "dupref" THEN Refs ELSE Uniq(Refs)
Grouped(u) == LET RECURSIVE G(_)
                  G(k) == IF k = 0 THEN <<>> ELSE G(k - 1) \o SelectSeq(Infs, LAMBDA i : \E m \in 1 .. Len(pairs) : pairs[m] = <<u[k], i>>)
              IN  G(Len(u))
Run == /\ st = 2 /\ st' = 3
       /\ LET nr == Sorted(Sel \ (IF Bug = "keepref" THEN RangeOf(Infs) ELSE RangeOf(Infs) \cup RangeOf(Refs)))
              u == UR  g == Grouped(u)
          IN  out' = [names |-> nr \o u \o g, nNR |-> Len(nr), nR |-> Len(u), nI |-> Len(Infs)]
       /\ UNCHANGED <<df, thr, list, auto, pairs>>
Next == Table \/ Req \/ AddPair \/ Run
Spec == Init /\ [][Next]_vars
Done == st = 3
SelSpec == IF auto THEN Auto(df, thr) ELSE list
Once == Done => Len(out.names) = Cardinality(RangeOf(out.names))
Exactly == Done => RangeOf(out.names) = All(SelSpec, Refs, Infs)
Counts == Done => out.nNR + out.nR + out.nI = Len(out.names) /\ out.nR = Cardinality(RangeOf(Refs)) /\ out.nNR = Cardinality(NR(SelSpec, Refs, Infs))
\* a longer record (smaller threshold) never loses a constituent
LongerIsMore == (Done /\ auto) => \A x \in 0 .. thr : Auto(df, thr) \subseteq Auto(df, x)
====
