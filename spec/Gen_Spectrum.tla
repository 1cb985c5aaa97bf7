---- MODULE Gen_Spectrum ----
(* series for the noise spectra *)
EXTENDS Gen
SpectrumSpace == << Opt("two"), <<"even", <<TRUE, FALSE>> >>, <<"n", <<100, 128, 166, 240>> >>, <<"q", <<2, 4, 8, 12>> >>, <<"odd", <<FALSE, FALSE, TRUE>> >>,
                    <<"kind", <<"noise", "red", "lines", "one">> >>, <<"like", <<"free", "same", "opposite", "quadrature">> >>, <<"ncf", <<0, 1, 3, 8>> >>,
                    <<"mean", <<0, 1, 50>> >>, <<"size", <<"unit", "tiny", "huge">> >>, <<"start", <<0, 12, 735000>> >> >>
\* long enough to resolve the gaps between the bands
SpectrumValid(r) == r.n * r.q >= 640
====
