---- MODULE Gen_Irls ----
(* small regression problems for the robust iteration *)
EXTENDS Gen
IrlsSpace == << Opt("wf"), <<"complex", <<TRUE, FALSE>> >>, <<"n", <<9, 10, 13, 16>> >>, <<"p", <<1, 2, 3>> >>, <<"tune", <<"-", "-", "1.2", "2", "4">> >>,
                <<"tol", <<"-", "0", "0.1", "0.01">> >>, <<"odd", <<"none", "one", "two", "lever", "offset">> >>, <<"big", <<3, 30, 1000>> >>, <<"size", <<"unit", "tiny", "huge">> >>,
                <<"flat", <<FALSE, FALSE, TRUE>> >> >>
IrlsValid(r) == TRUE
====
