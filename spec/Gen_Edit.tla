---- MODULE Gen_Edit ----
(* placements and kinds of missing values *)
EXTENDS Gen
EdSpace == << Opt("two"), Opt("trend"), Opt("phase"),
  <<"nodal", <<"exact", "none">> >>, <<"conf", <<"none", "linear">> >>, <<"white", <<TRUE, FALSE>> >>,
  <<"method", <<"ols", "ols", "robust">> >>,
  <<"constit", <<"list", "auto", "auto">> >>,
  <<"grid", <<"even", "even", "jitter", "hole", "late", "one">> >>,
  <<"tpat", <<"none", "scatter", "start", "end", "both", "inner", "scatterends", "alternate">> >>,
  <<"upat", <<"none", "scatter", "start", "end", "both", "inner", "scatterends", "alternate">> >>,
  <<"vpat", <<"none", "scatter", "start", "end", "both", "inner", "overlap">> >>,
  <<"tform", <<"float", "list", "masked", "dt64", "mdt64", "series", "dindex", "posinf", "mixed">> >>,
  <<"uform", <<"nan", "inf", "neginf", "masked", "mixed", "series", "list", "int", "half", "hard">> >>,
  <<"vform", <<"nan", "inf", "masked", "mixed", "series", "list", "int", "half", "hard">> >>,
  <<"tform2", <<"float", "masked", "mdt64", "series", "mixed">> >>,
  <<"uform2", <<"nan", "inf", "masked", "mixed", "hard">> >>,
  <<"vform2", <<"nan", "masked", "mixed", "half">> >> >>
EdValid(r) == (r.two \/ r.vpat = "none") /\ (r.tpat = "none" \/ r.tform # "list" \/ TRUE)
====
