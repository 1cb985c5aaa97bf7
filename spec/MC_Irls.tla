---- MODULE MC_Irls ----
(* The weight functions on a grid of scaled residuals: one at zero, between zero and one, never increasing, those that redescend
   reach (almost) nothing.  One point per step. *)
EXTENDS Irls
CONSTANT Steps
VARIABLES wf, k, w, prev
vars == <<wf, k, w, prev>>
R(i) == FlDiv(FlOf(i), FlOf(25))
Init == wf \in Functions /\ k = 0 /\ w = Weight(wf, FlZero) /\ prev = F1
Next == k < Steps /\ k' = k + 1 /\ w' = TLCEval(Weight(wf, R(k + 1))) /\ prev' = w /\ UNCHANGED wf
Spec == Init /\ [][Next]_vars
Tiny == Fl(10000000, 0 - 5)
AtZero == k = 0 => w = F1
InRange == FlLeq(FlZero, w) /\ FlLeq(w, F1)
Falling == FlLeq(w, FlAdd(prev, Tiny))
Redescends == (k >= 100 /\ wf \in {"andrews", "bisquare", "talwar", "welsch"}) => FlLeq(w, Tiny)
KeepsSome == (wf \in {"cauchy", "fair", "huber", "logistic", "ols"}) => FlLt(Fl(10000000, 0 - 2), w)
====
