---- MODULE Gen_UTide ----
(* whole cycles: every option together with every kind of input *)
EXTENDS Gen
CySpace == << Opt("two"), Opt("trend"), Opt("phase"), Opt("nodal"), Opt("conf"), Opt("white"), <<"method", <<"ols", "ols", "ols", "robust">> >>, Opt("wf"), Opt("order"),
  Opt("constit"), Opt("infer"), Opt("iform"),
  <<"fault", <<"", "", "", "", "", "", "", "unknown_option", "unknown_constit", "no_latitude", "bad_conf", "bad_method", "bad_phase", "bad_nodal", "bad_order">> >>, <<"which", <<0, 1, 2, 3>> >>,
  <<"grid", <<"even", "even", "jitter", "hole", "late", "one">> >>, <<"length", <<"short", "medium", "long">> >>,
  <<"tpat", <<"none", "none", "scatter", "start", "end", "inner", "scatterends">> >>,
  <<"upat", <<"none", "none", "scatter", "start", "end", "both", "inner", "scatterends", "alternate">> >>,
  <<"vpat", <<"none", "none", "scatter", "start", "end", "overlap">> >>,
  <<"tform", <<"float", "list", "masked", "dt64", "mdt64", "series", "dindex", "posinf", "mixed">> >>,
  <<"uform", <<"nan", "inf", "neginf", "masked", "mixed", "series", "list", "half", "hard">> >>,
  <<"vform", <<"nan", "inf", "masked", "mixed", "series", "list", "half", "hard">> >>,
  <<"size", <<"unit", "unit", "tiny", "huge">> >>, <<"noise", <<0, 1, 2>> >>, <<"lat", <<"any", "band", "special">> >>, <<"era", <<"modern", "modern", "old", "remote">> >>,
  <<"rform", <<"float", "dt64", "series", "list", "posinf">> >>,
  <<"given", <<"no", "no", "no", "list", "tuple", "array", "foreign">> >>, <<"snr", <<"default", "zero", "low", "mid", "high", "huge">> >>, <<"pe", <<"default", "zero", "low", "mid", "huge">> >> >>
CyValid(r) == Supported(r) /\ Consistent(r) /\ (r.two \/ (r.vpat = "none" /\ r.vform = "nan"))
====
