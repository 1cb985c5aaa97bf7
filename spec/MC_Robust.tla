---- MODULE MC_Robust ----
(* All data sets of N values from Good \cup {Gross}; the iteration may stop early whenever it has not become worse
   (tolerance, iteration limit).  Bug: "nextweights", "centred", "halfrevert".                                    *)
EXTENDS Robust
CONSTANTS N, Bug
Good == {0 - 42, 0 - 20, 0, 10, 42}
Gross == 4200
VARIABLES y, w, b, old, stage, early
vars == <<y, w, b, old, stage, early>>
Ones == [i \in 1 .. N |-> 1]
Init == y = <<>> /\ w = <<>> /\ b = 0 /\ old = <<>> /\ stage = "pick" /\ early = FALSE
Pick == /\ stage = "pick" /\ Len(y) < N
        /\ \E x \in Good \cup {Gross} : (y # <<>> => x >= y[Len(y)]) /\ y' = Append(y, x)
        /\ IF Len(y) = N - 1 THEN w' = Ones /\ stage' = "fit" ELSE UNCHANGED <<w, stage>>
        /\ UNCHANGED <<b, old, early>>
Fit == stage = "fit" /\ b' = LS(y, w) /\ stage' = "judge" /\ UNCHANGED <<y, w, old, early>>
Cur == [b |-> b, w |-> w, ss |-> SS(y, w, b)]
Worse == old # <<>> /\ ~NoWorse(SS(y, w, b), Wsum(w), old[1].ss, Wsum(old[1].w))
Equal == old # <<>> /\ SS(y, w, b) * Wsum(old[1].w) = old[1].ss * Wsum(w)
NewW == LET r == Resid(y, b) IN Hard(r, IF Bug = "centred" THEN ScaleCentred(r) ELSE Scale(r))
Revert == /\ stage = "judge" /\ Worse /\ stage' = "done" /\ b' = old[1].b
          /\ w' = IF Bug = "halfrevert" THEN w ELSE old[1].w
          /\ UNCHANGED <<y, old, early>>
Stop == /\ stage = "judge" /\ ~Worse /\ stage' = "done"
        /\ (Equal \/ Scale(Resid(y, b)) = 0 \/ TRUE) /\ early' = ~(Equal \/ Scale(Resid(y, b)) = 0)
        /\ w' = (IF Bug = "nextweights" THEN NewW ELSE w)
        /\ UNCHANGED <<y, b, old>>
Again == /\ stage = "judge" /\ ~Worse /\ ~Equal /\ Scale(Resid(y, b)) # 0
         /\ old' = <<Cur>> /\ w' = NewW /\ stage' = "fit" /\ UNCHANGED <<y, b, early>>
Next == Pick \/ Fit \/ Revert \/ Stop \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Fit \/ Revert \/ Stop \/ Again)
Done == stage = "done"
\* the returned weights are those of the returned solution
Consistent == Done => b = LS(y, w)
Supported == stage \in {"fit", "judge", "done"} => 2 * Wsum(w) >= N
\* one gross error among N: once converged the answer lies among the good values
Resists == (Done /\ ~early /\ Cardinality({i \in 1 .. N : y[i] = Gross}) = 1) => Abs(b) <= 42
Improves == [][old # <<>> /\ old' # old => NoWorse(old'[1].ss, Wsum(old'[1].w), old[1].ss, Wsum(old[1].w))]_vars
Terminates == (stage = "fit") ~> Done
====
