---- MODULE Gen ----
(* Generator of cases from an option space: one option is chosen per step; the finished record is printed as JSON.
   Space: a sequence of <<name, sequence of values>> given by the extending module; Valid filters.               *)
EXTENDS Request, SequencesExt, Json
CONSTANTS Space, Valid(_)
VARIABLES k, rec
gvars == <<k, rec>>
GInit == k = 1 /\ rec = <<>>
GChoose == /\ k <= Len(Space)
           /\ \E j \in DOMAIN Space[k][2] :
                rec' = IF k = 1 THEN (Space[k][1] :> Space[k][2][j]) ELSE rec @@ (Space[k][1] :> Space[k][2][j])
           /\ k' = k + 1
GEmit == /\ k = Len(Space) + 1
         /\ k' = k + 1
         /\ rec' = <<>>
         /\ Valid(rec) => PrintT("CASE " \o ToJson(rec))
GSpec == GInit /\ [][GChoose \/ GEmit]_gvars
Opt(name) == <<name, SetToSeq(Dom[name])>>
====
