---- MODULE MC_Calib ----
(* The exact distribution of the least-squares estimates of a mean, a cosine and a sine from data that are pure +-1 noise,
   sampled four times per cycle: dist counts the noise sequences by their sums against the three columns (cos is 1, 0, -1, 0;
   sin is 0, 1, 0, -1).  One sample is added per step.  Every fourth sample the columns are orthogonal, with squared norms
   n/2, n/2 and n, and the textbook values can be read off.  Dof: what the misfit is divided by (n - 3; a mutant divides by n);
   Amp: variance of a coefficient times n, in halves (4: 2 s2/n).                                                            *)
EXTENDS Integers, FiniteSets, FiniteSetsExt, TLC, Functions
CONSTANTS MaxN, Params, Twice
VARIABLES n, dist
Cos(k) == <<1, 0, 0 - 1, 0>>[1 + (k % 4)]
Sin(k) == <<0, 1, 0, 0 - 1>>[1 + (k % 4)]
Init == n = 0 /\ dist = (<<0, 0, 0>> :> 1)
Cnt(d, k) == IF k \in DOMAIN d THEN d[k] ELSE 0
Add(k, e, j) == <<k[1] + e * Cos(j), k[2] + e * Sin(j), k[3] + e>>
Next == /\ n < MaxN
        /\ LET keys == {Add(k, e, n) : k \in DOMAIN dist, e \in {1, 0 - 1}}
           IN  dist' = TLCEval([k \in keys |-> Cnt(dist, Add(k, 0 - 1, n)) + Cnt(dist, Add(k, 1, n))])
        /\ n' = n + 1
Spec == Init /\ [][Next]_<<n, dist>>
Total == 2^n
Moment(f(_)) == MapThenSumSet(LAMBDA k : dist[k] * f(k), DOMAIN dist)
Whole == n > 0 /\ (n % 4) = 0
(* var of 2/n * (sum against cos) = Twice * s2 / n *)
VarCos == Whole => Moment(LAMBDA k : 4 * k[1] * k[1]) = Twice * n * Total
VarSin == Whole => Moment(LAMBDA k : 4 * k[2] * k[2]) = Twice * n * Total
Uncorrelated == Whole => Moment(LAMBDA k : k[1] * k[2]) = 0 /\ Moment(LAMBDA k : k[1] * k[3]) = 0
(* expected misfit: n*SSE = n*n - 2 c^2 - 2 s^2 - m^2; divided by n - Params it estimates the variance without bias *)
Unbiased == Whole => Moment(LAMBDA k : n * n - 2 * k[1] * k[1] - 2 * k[2] * k[2] - k[3] * k[3]) = n * (n - Params) * Total
AllCounted == Moment(LAMBDA k : 1) = Total
====
