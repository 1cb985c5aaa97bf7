---- MODULE Gen_Calib ----
(* ensembles: white (long, short, anisotropic) and coloured intervals *)
EXTENDS Gen
CalSpace == << Opt("two"), <<"kind", <<"long", "long", "short", "coloured", "coloured", "few">> >>, <<"conf", <<"linear", "MC">> >>, <<"trend", <<TRUE, FALSE>> >>,
  Opt("phase"), Opt("nodal"), <<"samp", <<"regular", "jitter", "gappy", "nangaps", "random">> >>, <<"span", <<35, 60, 90, 180, 360>> >>,
  <<"dtmin", <<60, 60, 120, 20>> >>, <<"group", <<0, 1, 2, 3, 4, 5, 6, 7>> >>, <<"size", <<"unit", "tiny", "huge">> >>, <<"lat", <<"any", "band", "special">> >>,
  <<"era", <<"modern", "old", "remote">> >>, <<"sig", <<10, 30, 100>> >>, <<"an", <<10, 10, 3, 30>> >>, <<"rho", <<0, 8, 0 - 8>> >>, <<"infer", <<"none", "none", "exact">> >> >>
CalValid(r) == /\ (r.kind = "long") => r.span >= 90
               /\ (r.kind = "short") => r.span <= 60
               /\ (r.kind = "few") => r.span <= 60        \* and linear, white, without inference, at random times, whatever is said
               /\ ~r.two => r.an = 10 /\ r.rho = 0
               /\ (r.rho # 0 /\ r.kind # "few") => r.conf = "MC"
               /\ (r.two /\ r.kind = "coloured" /\ r.conf = "MC") => r.rho # 0
                              \* linear propagation takes u and v for uncorrelated
               /\ (r.kind = "coloured") => r.span >= 60
               /\ (r.infer # "none" /\ r.kind # "few") => r.conf = "linear"         \* Monte Carlo with inference is refused by the code
====
