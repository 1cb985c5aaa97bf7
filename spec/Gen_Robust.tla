---- MODULE Gen_Robust ----
(* robust analyses: weighted optimality (opt), contaminated (con) and clean (cln) data *)
EXTENDS Gen
RobSpace == << Opt("two"), Opt("wf"), <<"kind", <<"opt", "opt", "con", "con", "cln">> >>, <<"trend", <<TRUE, FALSE>> >>, Opt("phase"), Opt("nodal"),
  <<"samp", <<"regular", "jitter", "gappy", "nangaps", "late", "one">> >>, <<"span", <<15, 30, 60>> >>, <<"dtmin", <<60>> >>, <<"group", <<0, 1, 2, 3, 4>> >>,
  <<"size", <<"unit", "tiny", "huge">> >>, <<"noise", <<0, 1, 2>> >>, <<"lat", <<"any", "band", "special">> >>, <<"era", <<"modern", "old", "remote">> >>,
  <<"still", <<0, 0, 0, 1, 2>> >>,
  <<"carry", <<"plain", "plain", "plain", "strided", "backward", "column", "bigendian", "readonly">> >>,
  <<"maxit", <<0, 0, 0, 1, 2, 3, 5, 200>> >>, <<"tol", <<0, 0, 1, 2>> >>, <<"tune", <<0, 0, 1, 2>> >>, <<"infer", <<"none", "none", "none", "exact">> >>, <<"conf", <<"none", "linear">> >>,
  <<"where", <<"scatter", "positive", "burst">> >>, <<"frac", <<1, 2, 3, 4>> >>, <<"big", <<1, 2, 4, 6>> >> >>
RobValid(r) == /\ r.kind = "opt" \/ r.wf # "ols"
               /\ (r.frac = 4 /\ r.kind = "con") => r.wf \in {"andrews", "bisquare", "talwar", "welsch"} /\ r.where # "scatter"
                                      \* a seventh of the samples: for weights that fall to zero
====
