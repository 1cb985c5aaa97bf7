---- MODULE Gen_Law ----
(* analyses to be related to analyses of transformed data, or under other options *)
EXTENDS Gen
Common0 == << Opt("two"), Opt("trend"), Opt("phase"), Opt("nodal"), <<"samp", <<"regular", "jitter", "gappy", "nangaps", "late", "one">> >>,
  <<"span", <<15, 30, 60>> >>, <<"dtmin", <<60>> >>, <<"group", <<0, 1, 2, 3, 4, 5, 7>> >>, <<"size", <<"unit", "tiny", "huge">> >>,
  <<"noise", <<0, 1, 2>> >>, <<"data", <<"plain", "plain", "plain", "spike", "burst", "lag">> >>,
  <<"carry", <<"plain", "plain", "plain", "strided", "backward", "column", "bigendian", "readonly">> >>, <<"lat", <<"any", "band", "special">> >>, <<"era", <<"modern", "modern", "old", "remote">> >> >>
TrSpace == Common0 \o << Opt("conf"), Opt("white"), <<"method", <<"ols", "ols", "robust">> >>, <<"wf", <<"cauchy", "huber", "bisquare", "fair", "welsch">> >>,
  <<"infer", <<"none", "none", "exact">> >>,
  <<"constit", <<"list", "list", "auto">> >> >>
TrValid(r) == Supported(r)
PreSpace == Common0 \o << Opt("white"), Opt("method"), Opt("wf"), <<"infer", <<"none", "none", "exact", "approx">> >>, <<"constit", <<"list", "auto">> >> >>
PreValid(r) == TRUE
ConvSpace == Common0 \o << <<"method", <<"ols", "ols", "ols", "robust">> >>, <<"wf", <<"cauchy">> >>, <<"sep", <<TRUE, TRUE, FALSE>> >> >>
ConvValid(r) == TRUE
SvSpace == Common0 \o << <<"conf", <<"none", "none", "linear">> >>, <<"special", <<"free", "zero", "proportional", "negative", "uzero">> >>, <<"constit", <<"list", "auto">> >> >>
SvValid(r) == r.two
SumSpace == Common0 \o << <<"infer", <<"none", "none", "exact", "approx">> >>, <<"constit", <<"list", "list", "auto">> >> >>
SumValid(r) == TRUE
TimeSpace == SelectSeq(Common0, LAMBDA o : o[1] \notin {"phase", "nodal"}) \o << <<"phase", <<"raw">> >>, <<"nodal", <<"none">> >>, Opt("conf"), Opt("white"), <<"method", <<"ols", "ols", "robust">> >>,
  <<"wf", <<"cauchy", "huber", "fair", "welsch">> >>, <<"infer", <<"none", "none", "exact", "approx">> >>, <<"constit", <<"list", "list", "auto">> >>, <<"move", <<"day", "whole", "far">> >> >>
TimeValid(r) == Supported(r)
====
