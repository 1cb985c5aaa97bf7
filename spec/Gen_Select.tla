---- MODULE Gen_Select ----
EXTENDS Gen
SelSpace == << <<"constit", <<"auto", "auto", "auto", "list">> >>, <<"span", <<"short", "medium", "long", "year", "tie", "tie">> >>,
  <<"rmin", <<"one", "one", "low", "high", "random">> >>,
  <<"infer", <<"none", "none", "natural", "wild", "wild">> >>,
  <<"samp", <<"even", "jitter", "gap">> >>, Opt("two"), Opt("trend"), Opt("phase"), Opt("nodal"),
  <<"era", <<"modern", "modern", "old", "remote">> >>,
  <<"order", <<"default", "frequency">> >> >>
SelValid(r) == TRUE
====
