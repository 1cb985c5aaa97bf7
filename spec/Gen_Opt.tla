---- MODULE Gen_Opt ----
(* analyses of noisy data by ordinary least squares *)
EXTENDS Gen
OptSpace == << Opt("two"), Opt("trend"), Opt("phase"), Opt("nodal"),
  <<"infer", <<"none", "none", "exact">> >>,
  <<"conf", <<"none", "linear">> >>,
  <<"samp", <<"regular", "jitter", "gappy", "nangaps", "random", "late", "early", "one", "drift", "dense", "dense", "dense">> >>,
  <<"span", <<15, 15, 29, 45, 120>> >>,
  <<"dtmin", <<60, 120, 5>> >>,
  <<"group", <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 10, 10>> >>,
  <<"size", <<"unit", "tiny", "huge">> >>,
  <<"data", <<"plain", "plain", "plain", "spike", "burst", "flat", "lag">> >>,
  <<"carry", <<"plain", "plain", "plain", "strided", "backward", "column", "bigendian", "readonly">> >>,
  <<"noise", <<1, 0>> >>,
  <<"era", <<"modern", "modern", "old", "remote">> >>,
  <<"lat", <<"any", "band", "special">> >> >>
OptValid(r) == r.two \/ r.data # "flat"
====
