---- MODULE Gen_Config ----
(* calls that give or omit each option; predictions likewise. "-" is an option left out. *)
EXTENDS Gen
Some(n, s) == <<n, <<"-">> \o s>>
ConfSpace == << Opt("two"), Some("trend", <<"yes", "no">>), Some("phase", <<"Greenwich", "linear_time", "raw">>), Some("nodal", <<"exact", "linear_time", "none">>),
                Some("conf", <<"linear", "MC", "none">>), Some("white", <<"yes", "no">>), Some("method", <<"ols", "robust">>), Some("wf", <<"cauchy", "huber", "bisquare", "welsch">>),
                Some("order", <<"None", "PE", "SNR", "frequency", "list", "tuple", "array">>), Some("constit", <<"auto", "list", "tuple", "array">>),
                Some("infer", <<"None", "none", "exact", "approx", "exact", "plain">>), Opt("iform"), Opt("tform"), Some("rmin", <<"0.9", "1">>), Some("verbose", <<"yes", "no", "no">>),
                <<"group", <<0, 1, 2, 6>> >>,
                Some("pconstit", <<"None", "some", "all", "empty">>), Some("psnr", <<"0", "2", "3.5">>), Some("ppe", <<"0", "0.5", "10">>) >>
Infers(r) == r.infer \in {"exact", "approx", "plain"}
ConfValid(r) == /\ (r.conf = "MC" => ~Infers(r))
                /\ (r.order = "SNR" => r.conf # "none")
                /\ (r.constit \in {"-", "auto"} => r.order \notin {"list", "tuple", "array"})
====
