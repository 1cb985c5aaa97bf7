---- MODULE MC_Order ----
(* A result is a record of parallel arrays, filled in the internal order and then permuted.  All small results and all
   orders are explored.  Skip: arrays a faulty implementation forgets to permute (non-empty in the mutant configurations);
   Reverse: sort direction of energy.                                                                                     *)
EXTENDS Order
CONSTANTS N, Skip, Backwards
Names == <<"M2", "S2", "K1">>
Vals == {FlOf(1), FlOf(2), FlOf(4)}
VARIABLES name, frq, amp, snr, kind, stage, orig
vars == <<name, frq, amp, snr, kind, stage, orig>>
Row(i) == [n |-> name[i], f |-> frq[i], pe |-> amp[i], snr |-> snr[i]]
Rows == [i \in 1 .. N |-> Row(i)]
Init == /\ stage = "fit" /\ kind = "none" /\ orig = <<>>
        /\ name = SubSeq(Names, 1, N)
        /\ frq \in [1 .. N -> {FlOf(3), FlOf(5), FlOf(9)}] /\ (\A i, j \in 1 .. N : i # j => frq[i] # frq[j])
        /\ amp \in [1 .. N -> Vals] /\ snr \in [1 .. N -> Vals]
Perms == {p \in [1 .. N -> 1 .. N] : \A i, j \in 1 .. N : i # j => p[i] # p[j]}
Key(k) == CASE k = "PE" -> [i \in 1 .. N |-> FlNeg(amp[i])] [] k = "SNR" -> [i \in 1 .. N |-> FlNeg(snr[i])] [] k = "frequency" -> frq
By(s, p) == [i \in 1 .. N |-> s[p[i]]]
Sorts(k, p) == LET s == By(Key(k), p) IN IF Backwards THEN NonIncreasing(s) ELSE NonDecreasing(s)
Reorder(k) == \E p \in Perms :
   /\ Sorts(k, p)
   /\ name' = By(name, p)
   /\ frq' = IF "frq" \in Skip THEN frq ELSE By(frq, p)
   /\ amp' = IF "amp" \in Skip THEN amp ELSE By(amp, p)
   /\ snr' = IF "snr" \in Skip THEN snr ELSE By(snr, p)
Next == /\ stage = "fit" /\ stage' = "done" /\ orig' = Rows
        /\ \E k \in {"PE", "SNR", "frequency"} : kind' = k /\ Reorder(k)
Spec == Init /\ [][Next]_vars
Attached == stage = "done" => ReordersOnly(Rows, orig, LAMBDA a, b : a = b)
InOrder == stage = "done" => Ordered(kind, <<>>, Rows)
====
