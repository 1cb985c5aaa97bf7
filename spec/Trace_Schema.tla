---- MODULE Trace_Schema ----
(* C11: the fields, shapes and ranges of a recorded result. Angles in 1e-6 degrees, sizes relative to the data in 1e-8. *)
EXTENDS Request, Judge
MISSING == 2000000000
Abs0(x) == IF x < 0 THEN -x ELSE x
Set(s) == {s[i] : i \in 1 .. Len(s)}
Universe == UNION {Schema([two |-> a, trend |-> b, conf |-> c, order |-> d, method |-> m]) :
                   a \in BOOLEAN, b \in BOOLEAN, c \in {"linear", "none"}, d \in {"PE", "frequency"}, m \in {"ols", "robust"}}
Finite(x) == Abs0(x) <= 1000000000
SchemaBad(e) == IF ~e.ok THEN <<"no result: " \o e.err>> ELSE
  LET r == e.req  keys == Set(e.keys) \cap Universe  want == TLCEval(Schema(r))  n == Len(e.names)
      per == PerConstituent(r)
      lens == {f \in per : f \in DOMAIN e.len /\ e.len[f] # n}
      dgn == IF "diagn" \in want THEN Set(e.diagn) ELSE {}
      inR(f, lo, hi) == \A i \in 1 .. Len(e.val[f]) : Finite(e.val[f][i]) /\ e.val[f][i] >= lo /\ e.val[f][i] <= hi
      rng == {f \in DOMAIN e.val :
                ~ CASE f = "g" -> inR(f, 0, 360000000) [] f = "theta" -> inR(f, 0, 180000000)
                    [] f \in {"A", "Lsmaj", "A_ci", "Lsmaj_ci", "Lsmin_ci", "g_ci", "theta_ci", "PE", "SNR"} -> inR(f, 0, 1000000000)
                    [] OTHER -> inR(f, -1000000000, 1000000000)}
  IN  If(keys # want, "fields: missing " \o ToString(want \ keys) \o ", extra " \o ToString(keys \ want))
      \o If(lens # {}, "length of " \o ToString(lens))
      \o If(rng # {}, "range of " \o ToString(rng))
      \o If(n # Cardinality(Set(e.names)) \/ n # e.nR + e.nNR + e.nI \/ n = 0, "counts")
      \o If(e.listed # <<>> /\ Set(e.names) # Set(e.listed), "names are not the requested ones")
      \o If(e.order # <<>> /\ e.names # e.order, "order")
      \o If(r.two /\ \E i \in 1 .. n : Abs0(e.val["Lsmin"][i]) > e.val["Lsmaj"][i] + 1, "semi-minor exceeds semi-major")
      \o If(e.nw # e.retained \/ ~e.wok, "weights")
      \o If("diagn" \in want /\ ~({"name", "PE", "SNR"} \subseteq dgn), "diagnostics")
      \o If(~e.rec, "reconstruct with the result: " \o e.recerr)
====
