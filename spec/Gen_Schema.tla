---- MODULE Gen_Schema ----
(* the product of documented option values and input forms *)
EXTENDS Gen
SchSpace == << Opt("two"), Opt("trend"), Opt("phase"), Opt("nodal"), Opt("conf"), Opt("white"), Opt("method"), Opt("wf"), Opt("order"),
               Opt("constit"), Opt("infer"), Opt("iform"), Opt("tform"), Opt("uform"), <<"vform", SetToSeq(Dom["uform"])>>, Opt("samp"), Opt("verbose"),
               <<"group", <<0, 1, 2, 3, 6>> >> >>
SchValid(r) == Supported(r) /\ Consistent(r) /\ (r.two \/ r.vform = "array")
\* every pair of values of the options that decide the fields, exhaustively
SmallSpace == << Opt("two"), Opt("trend"), Opt("conf"), Opt("method"), <<"order", <<"default", "PE", "SNR", "frequency", "list">> >>, Opt("infer"), <<"constit", <<"auto", "list">> >> >>
SmallValid(r) == Supported(r) /\ Consistent(r)
====
