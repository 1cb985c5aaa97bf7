---- MODULE Robust ----
(* The robust method as an iteratively reweighted least-squares machine on a location model (mean of integers, hard
   rejection weights).  A fit belongs to the weights it was made with; a fit that does worse than its predecessor is
   discarded together with its weights; the residual scale is the median absolute residual.                            *)
EXTENDS Num, FiniteSets
Wsum(w) == SumSeq(w)
LS(y, w) == IF Wsum(w) = 0 THEN 0 ELSE SumSeq([i \in 1 .. Len(y) |-> w[i] * y[i]]) \div Wsum(w)
SS(y, w, b) == SumSeq([i \in 1 .. Len(y) |-> w[i] * (y[i] - b) * (y[i] - b)])
Med(s) == SortSeq(s, LAMBDA a, b : a < b)[(Len(s) + 1) \div 2]          \* odd lengths
Resid(y, b) == [i \in 1 .. Len(y) |-> y[i] - b]
Scale(r) == Med([i \in 1 .. Len(r) |-> Abs(r[i])])
ScaleCentred(r) == LET m == Med(r) IN Med([i \in 1 .. Len(r) |-> Abs(r[i] - m)])
Hard(r, s) == [i \in 1 .. Len(r) |-> IF Abs(r[i]) * 1000 < 4144 * s THEN 1 ELSE 0]
(* the mean square a fit reaches, compared as fractions: SS1/W1 <= SS2/W2 *)
NoWorse(s1, w1, s2, w2) == s1 * w2 <= s2 * w1
====
