---- MODULE Gen_Fit ----
(* configurations for recovery of a known tide *)
EXTENDS Gen
FitSpace == << Opt("two"), Opt("trend"), Opt("phase"), Opt("nodal"),
  <<"conf", <<"none", "none", "linear">> >>,
  <<"samp", <<"regular", "jitter", "gappy", "nangaps", "random", "late", "early", "one", "drift", "dense", "massive">> >>,
  <<"span", <<15, 30, 61, 183, 380>> >>,
  <<"dtmin", <<10, 20, 30, 60, 60, 120>> >>,
  <<"nc", <<1, 2, 4, 8, 14>> >>,
  <<"zero", <<0, 0, 1, 2>> >>,
  <<"shape", <<"free", "free", "circular", "rectilinear", "retrograde">> >>,
  <<"size", <<"unit", "unit", "tiny", "huge">> >>,
  <<"carry", <<"plain", "plain", "plain", "strided", "backward", "column", "bigendian", "readonly">> >>,
  <<"era", <<"modern", "modern", "modern", "old", "remote">> >>,
  <<"lat", <<"any", "any", "band", "special">> >>,
  <<"order", <<"default", "frequency", "list">> >> >>
FitValid(r) == (r.samp = "massive") => (r.nc \in {2, 4} /\ r.zero = 0 /\ r.span >= 30 /\ r.order = "default")
====
