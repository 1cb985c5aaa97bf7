---- MODULE Gen_Recon ----
(* solutions and requests for reconstruction *)
EXTENDS Gen
IncSpace == << Opt("two"), Opt("trend"), <<"conf", <<"linear", "linear", "MC", "none">> >>, Opt("phase"), Opt("nodal"),
  <<"infer", <<"none", "none", "exact">> >>,
  <<"method", <<"ols", "robust">> >>,
  <<"order", <<"default", "frequency", "list">> >>,
  <<"group", <<0, 1, 2, 3, 4, 5, 6, 7>> >>,
  <<"sol", <<"fit", "fit", "crafted">> >>,
  <<"given", <<"no", "no", "list", "tuple", "array", "set", "empty", "foreign">> >>,
  <<"snr", <<"default", "zero", "low", "mid", "high", "equal", "huge">> >>,
  <<"pe", <<"default", "zero", "low", "mid", "equal", "huge">> >>,
  <<"noise", <<0, 1, 2>> >>,
  <<"lat", <<"any", "special">> >> >>
IncValid(r) == Supported(r)
PtsSpace == << Opt("two"), Opt("trend"), Opt("phase"), Opt("nodal"),
  <<"form", <<"python", "python", "matlab", "iso", "dt64", "datetime", "list", "series">> >>,
  <<"shape", <<"permuted", "duplicated", "single", "scalar", "empty", "sorted", "reversed", "outside", "many", "dense", "bulk", "close">> >>,
  <<"marks", <<"none", "few", "few", "ends", "most", "all">> >>,
  <<"junk", <<"plain", "wild">> >>,
  <<"verbose", <<FALSE>> >>,
  <<"group", <<0, 1, 2, 3, 4, 5>> >>,
  <<"lat", <<"any", "band", "special">> >> >>
PtsValid(r) == TRUE
PortSpace == << Opt("two"), Opt("trend"), <<"conf", <<"linear", "none">> >>, Opt("phase"), Opt("nodal"),
  <<"infer", <<"none", "exact">> >>, <<"method", <<"ols", "robust">> >>,
  <<"group", <<0, 1, 2, 3, 4, 5>> >>,
  <<"order", <<"default", "frequency", "list">> >>,
  <<"form", <<"copy", "deepcopy", "pickle", "plain", "permuted", "subset", "json", "process", "subsetperm", "picklepermuted">> >>,
  <<"lat", <<"any", "special">> >> >>
PortValid(r) == TRUE
====
