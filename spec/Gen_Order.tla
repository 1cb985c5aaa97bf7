---- MODULE Gen_Order ----
(* analyses whose constituents are reported in different orders *)
EXTENDS Gen
OrdSpace == << Opt("two"), Opt("trend"), Opt("conf"), Opt("white"), Opt("phase"), Opt("nodal"),
  <<"method", <<"ols", "ols", "robust">> >>,
  <<"infer", <<"none", "none", "exact", "approx">> >>,
  <<"constit", <<"list", "list", "auto">> >>,
  <<"samp", <<"regular", "jitter", "nangaps">> >>,
  <<"span", <<15, 30, 45>> >>,
  <<"group", <<0, 1, 2, 3, 4, 5, 7>> >>,
  <<"noise", <<0, 1, 2>> >>,
  <<"size", <<"unit", "tiny", "huge">> >>,
  <<"order", <<"default", "PE", "SNR", "frequency", "list">> >>,
  <<"lat", <<"any", "special">> >> >>
OrdValid(r) == Supported(r) /\ Consistent(r)
====
