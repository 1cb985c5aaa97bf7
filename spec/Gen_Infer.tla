---- MODULE Gen_Infer ----
EXTENDS Gen
InfSpace == << Opt("two"), Opt("trend"), Opt("phase"), Opt("nodal"), <<"infer", <<"exact", "exact", "approx">> >>,
  <<"conf", <<"none", "none", "linear">> >>, <<"white", <<TRUE, FALSE>> >>,
  <<"method", <<"ols", "ols", "ols", "robust">> >>,
  <<"pairs", <<"natural", "natural", "wild">> >>, <<"npairs", <<1, 2, 3, 4, 6>> >>,
  <<"refs", <<"any", "one", "interleaved">> >>,
  <<"listed", <<"neither", "refs", "all", "onlyinfer">> >>,
  <<"data", <<"tide", "tide", "noise">> >>,
  <<"samp", <<"regular", "jitter", "gappy", "nangaps", "late", "one">> >>,
  <<"span", <<30, 45, 70, 183>> >>,
  <<"era", <<"modern", "modern", "old", "remote">> >>,
  <<"lat", <<"any", "band", "special">> >>,
  <<"order", <<"default", "frequency", "list">> >> >>
InfValid(r) == TRUE
====
