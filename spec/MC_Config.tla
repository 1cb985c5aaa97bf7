---- MODULE MC_Config ----
(* A call with some options given; its record; a second call that gives the whole record. The analysis is a faithful image of the
   options in effect. Faulty: "forgets" records the default of an option that was given, "otherdefault" uses another default than it
   records, "fillsarg" completes the caller's own options, "respells" does not record in a form it accepts.                           *)
EXTENDS Config
CONSTANT Faulty
Small == [order_constit |-> "PE", infer |-> "None", method |-> "ols"]
Values == [order_constit |-> {"None", "PE", "frequency", "K1 M2"}, infer |-> {"none", "None", "P1<K1"}, method |-> {"ols", "robust"}]
Calls == UNION {[S -> UNION {Values[o] : o \in DOMAIN Small}] : S \in SUBSET DOMAIN Small}
Good == {c \in Calls : \A o \in DOMAIN c : c[o] \in Values[o]}
VARIABLES arg, arg0, rec, res, stage, rec1, res1
vars == <<arg, arg0, rec, res, stage, rec1, res1>>
InEffect(g) == [RecordedOver(Small, g) EXCEPT !.method = IF Faulty = "otherdefault" /\ "method" \notin DOMAIN g THEN "robust" ELSE @]
Keeps(g) == [RecordedOver(Small, g) EXCEPT !.infer = IF Faulty = "forgets" THEN "None" ELSE @,
                                           !.order_constit = IF Faulty = "respells" /\ @ = "PE" THEN "energy" ELSE @]
Init == arg \in Good /\ arg0 = arg /\ stage = "asked" /\ rec = <<>> /\ res = <<>> /\ rec1 = <<>> /\ res1 = <<>>
Solve == /\ stage = "asked" /\ stage' = "solved"
         /\ rec' = Keeps(arg) /\ res' = InEffect(arg)
         /\ arg' = IF Faulty = "fillsarg" THEN arg @@ Small ELSE arg
         /\ UNCHANGED <<arg0, rec1, res1>>
Again == /\ stage = "solved" /\ stage' = "again"
         /\ rec1' = Keeps(rec) /\ res1' = InEffect(rec)
         /\ UNCHANGED <<arg, arg0, rec, res>>
Next == Solve \/ Again
Spec == Init /\ [][Next]_vars
Repeats == stage = "again" => rec1 = rec /\ res1 = res
Records == stage # "asked" => rec = RecordedOver(Small, arg0) /\ \A o \in DOMAIN Small : o \notin DOMAIN arg0 => rec[o] = Small[o]
Untouched == arg = arg0
====
