---- MODULE Gen_Fault ----
(* requests with zero, one or two faults *)
EXTENDS Gen
FaultSeq == SetToSeq(Faults)
RFaultSeq == SetToSeq(DOMAIN ReconFaultOutcome)
FauSpace == << Opt("two"), Opt("trend"), Opt("conf"), Opt("phase"), Opt("nodal"), Opt("method"),
  <<"order", <<"default", "PE", "frequency", "list">> >>,
  <<"constit", <<"auto", "list", "tuple", "array">> >>,
  <<"infer", <<"none", "exact", "approx">> >>,
  <<"tform", <<"array", "list", "dt64", "datetime", "masked">> >>,
  <<"f1", <<"nothing">> \o FaultSeq \o FaultSeq \o FaultSeq >>,
  <<"f2", <<"nothing", "nothing">> \o FaultSeq >>,
  <<"which", <<0, 1, 2, 3>> >>,
  <<"recon", <<"nothing">> \o RFaultSeq >> >>
FauValid(r) == Supported(r) /\ (r.f1 = "nothing" => r.f2 = "nothing")
\* faults that exclude each other or the base request
One == << <<"f", FaultSeq>>, <<"which", <<0, 1, 2, 3>> >>, Opt("two"), <<"conf", <<"none", "linear">> >> >>
OneValid(r) == TRUE
====
