---- MODULE Gen_Band ----
EXTENDS Gen
BandSpace == << Opt("two"), <<"kind", <<"scale", "scale", "scale", "tide", "line", "even", "parts", "corr">> >>, <<"conf", <<"linear", "linear", "MC">> >>, <<"trend", <<TRUE, FALSE>> >>,
  Opt("phase"), Opt("nodal"), <<"samp", <<"regular", "regular", "jitter", "gappy", "random", "nangaps">> >>, <<"span", <<60, 90, 120>> >>, <<"nc", <<3, 6, 9>> >>,
  <<"size", <<"unit", "tiny", "huge">> >>, <<"lat", <<"any", "band", "special">> >>, <<"era", <<"modern", "old", "remote">> >>, <<"comp", <<0, 1>> >>, <<"along", <<0, 1>> >>, <<"odd", <<0, 1>> >>, <<"part", <<"all", "all", "low", "high">> >>, <<"long", <<FALSE, FALSE, TRUE>> >> >>
BandValid(r) == /\ (r.kind = "line") => r.samp \in {"regular", "jitter"}
                /\ (r.kind = "even") => r.samp \in {"jitter", "gappy"}
                /\ r.long => (r.kind = "scale" /\ r.samp # "regular" /\ r.part # "all")
                /\ (r.kind = "corr") => r.samp = "regular"
                /\ (r.kind = "tide") => r.conf = "linear"
====
