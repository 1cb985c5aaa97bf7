---- MODULE Request ----
(* Requests to solve(): the option space, which requests must be refused and how, and which fields a result has. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

WeightFns == {"andrews", "bisquare", "cauchy", "fair", "huber", "logistic", "ols", "talwar", "welsch"}
Dom == [two     |-> {FALSE, TRUE},
        trend   |-> {FALSE, TRUE},
        phase   |-> {"Greenwich", "linear_time", "raw"},
        nodal   |-> {"exact", "linear_time", "none"},
        conf    |-> {"linear", "MC", "none"},
        white   |-> {FALSE, TRUE},
        method  |-> {"ols", "robust"},
        wf      |-> WeightFns,
        order   |-> {"default", "PE", "SNR", "frequency", "list", "tuple", "array"},
        constit |-> {"auto", "list", "tuple", "array"},
        infer   |-> {"none", "exact", "approx"},
        iform   |-> {"dict", "Bunch"},
        tform   |-> {"array", "list", "tuple", "series", "dt64", "datetime", "datetimelist", "index", "masked"},
        uform   |-> {"array", "list", "tuple", "series", "masked", "float32", "int"},
        samp    |-> {"regular", "jitter", "gappy", "nangaps"},
        verbose |-> {FALSE, TRUE}]

\* documented exceptions
Supported(r) == ~(r.conf = "MC" /\ r.infer # "none")
Consistent(r) == (r.order = "SNR" => r.conf # "none")

\* ---- result schema ----
HasCI(r) == r.conf # "none"
HasPE(r) == HasCI(r) \/ r.order \in {"default", "PE"}
Common == {"name", "aux", "nR", "nNR", "nI", "weights"}
ParamFields(r) == IF r.two THEN {"Lsmaj", "Lsmin", "theta", "g"} ELSE {"A", "g"}
MeanFields(r) == IF r.two THEN {"umean", "vmean"} ELSE {"mean"}
SlopeFields(r) == IF ~r.trend THEN {} ELSE IF r.two THEN {"uslope", "vslope"} ELSE {"slope"}
CIFields(r) == IF ~HasCI(r) THEN {} ELSE IF r.two THEN {"Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci"} ELSE {"A_ci", "g_ci"}
DiagFields(r) == (IF HasPE(r) THEN {"PE"} ELSE {}) \cup (IF HasCI(r) THEN {"SNR", "diagn"} ELSE {})
RobustFields(r) == IF r.method = "robust" THEN {"rf"} ELSE {}
Schema(r) == Common \cup ParamFields(r) \cup MeanFields(r) \cup SlopeFields(r) \cup CIFields(r) \cup DiagFields(r) \cup RobustFields(r)
PerConstituent(r) == {"name"} \cup ParamFields(r) \cup CIFields(r) \cup (DiagFields(r) \ {"diagn"})

\* ---- refusals: each fault and the outcomes a request having it may have ----
FaultOutcome ==
  [ unknown_option    |-> {"KeyError"},
    unknown_constit   |-> {"KeyError"},
    unknown_reference |-> {"KeyError"},
    unknown_inferred  |-> {"KeyError"},
    no_latitude       |-> {"ValueError"},
    two_dim_input     |-> {"ValueError"},
    shape_u           |-> {"ValueError"},
    shape_v           |-> {"ValueError"},
    bad_conf          |-> {"ValueError"},
    bad_method        |-> {"ValueError"},
    bad_phase         |-> {"ValueError"},
    bad_nodal         |-> {"ValueError"},
    bad_order         |-> {"ValueError"},
    snr_without_ci    |-> {"ValueError"},
    infer_missing_key |-> {"ValueError"},
    infer_names_len   |-> {"ValueError"},
    infer_ratio_len   |-> {"ValueError"},
    infer_offset_len  |-> {"ValueError"},
    infer_lens_cancel |-> {"ValueError"},
    bad_epoch         |-> {"ValueError"},
    mc_infer          |-> {"NotImplementedError"} ]
Faults == DOMAIN FaultOutcome
Refusal(fs) == UNION {FaultOutcome[f] : f \in fs}
ReconFaultOutcome == [ two_dim_time |-> {"ValueError"}, bad_epoch |-> {"ValueError"} ]
====
