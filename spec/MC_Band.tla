---- MODULE MC_Band ----
(* A small spectrum: bins 1..6 in two bands, constituents at chosen bins; power arrives bin by bin.  Invariants: a constituent's
   noise depends on no bin of the other band and on no constituent's bin, and is raised by k when its band is raised by k.
   Skip: how far off the left-out bin is (0; a mutant is one off).  Map: which band a constituent takes (own; mutant: other). *)
EXTENDS Band
CONSTANTS Skip, Map
VARIABLES p, P, cons
Bin == 1 .. 6
B == <<1 .. 3, 4 .. 6>>
Of(k) == IF k \in B[1] THEN 1 ELSE 2
Init == p = 0 /\ P = [k \in Bin |-> 0] /\ cons \in {c \in SUBSET Bin : Cardinality(c) \in 1 .. 2 /\ Cardinality(c \cap B[1]) < 3 /\ Cardinality(c \cap B[2]) < 3}
Next == p < 6 /\ p' = p + 1 /\ \E x \in 0 .. 2 : P' = [P EXCEPT ![p + 1] = x] /\ UNCHANGED cons
Spec == Init /\ [][Next]_<<p, P, cons>>
Excl == {IF k + Skip \in Bin THEN k + Skip ELSE k : k \in cons}
Noise(Q, c) == BandMean(Q, B[IF Map = "own" THEN Of(c) ELSE 3 - Of(c)], Excl)
Bump(Q, s, x) == [k \in Bin |-> IF k \in s THEN Q[k] + x ELSE Q[k]]
OtherBand == \A c \in cons : Noise(Bump(P, B[3 - Of(c)], 5), c) = Noise(P, c)
LinesDontCount == \A c \in cons : Noise(Bump(P, cons, 7), c) = Noise(P, c)
OwnBand == \A c \in cons : LET a == Noise([k \in Bin |-> IF k \in B[Of(c)] THEN 9 * P[k] ELSE P[k]], c) IN a[1] = 9 * Noise(P, c)[1]
====
