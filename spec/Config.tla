---- MODULE Config ----
(* What results record of the call that made them. A call gives values to some options; the others have their default. Values are tokens.
   Recorded: the configuration kept with a solution; it determines the analysis, so giving it again repeats it.
   Echo: what a prediction keeps of its arguments.                                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Defaults == [ constit |-> "auto", order_constit |-> "PE", conf_int |-> "linear", method |-> "ols", trend |-> "True", phase |-> "Greenwich",
              nodal |-> "True", infer |-> "None", Rayleigh_min |-> "1", robust_kw |-> "weight_function=cauchy", white |-> "False",
              verbose |-> "True", epoch |-> "None" ]
Options == DOMAIN Defaults
\* other spellings of a value
Norm(o, v) == CASE o = "order_constit" /\ v = "None" -> "PE" [] o = "infer" /\ v = "none" -> "None" [] OTHER -> v
RecordedOver(dflt, given) == [o \in DOMAIN dflt |-> IF o \in DOMAIN given THEN Norm(o, given[o]) ELSE dflt[o]]
Recorded(given) == RecordedOver(Defaults, given)

EchoDefaults == [epoch |-> "None", constit |-> "None", min_SNR |-> "2", min_PE |-> "0"]
Echo(given) == [a \in DOMAIN EchoDefaults |-> IF a \in DOMAIN given THEN given[a] ELSE EchoDefaults[a]]
EchoFields(two) == DOMAIN EchoDefaults \cup {"t_in", "t_mpl"} \cup (IF two THEN {"u", "v"} ELSE {"h"})
====
