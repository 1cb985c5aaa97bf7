t("C02", "TLA+ abstract tide (Obs.tla: phasors / rotary pairs); TLC-generated configurations; TLC compares the abstract state of the fit with the tide the data were made from",
  "Hundreds of generated configurations (sampling, span, conventions, trend, latitude, era, size) over random separated constituents, to 6e-7 of the tide's size. The data generator is itself checked point by point against Tide.tla. Trusts TLC.")
t("C03", "TLA+ optimality condition (Trace_Opt.tla): misfit recorded at the solution and one step along every coordinate; TLC locates the minimum of the quadratic",
  "Stationarity of a convex quadratic in every coordinate direction implies global optimality; decided to 1e-4 of a noise-sized step for generated configurations.")
t("C09", "TLA+ ordering operators (Order.tla) model-checked over all small results with mutants; TLC compares the same analysis recorded in every order",
  "Association of every per-constituent quantity, sortedness and prediction invariance for generated configurations (1-D/2-D, inference, confidence, robust, auto).")
t("C10", "TLA+ definitions of PE/SNR in decimal floating point (Order.tla, Flt.tla); TLC recomputes every recorded diagnostic",
  "Recomputed to 1e-5 relative for generated configurations; table membership, association and order exact.")
t("C12", "TLA+ reconstruction filter (Recon.tla) model-checked exhaustively; TLC computes the included set of each recorded reconstruction and compares with the sum of single-constituent ones",
  "Generated solutions (fitted, and crafted so that thresholds equal values exactly), name lists and thresholds; sums to 2e-6 of the tide's size.")
t("C13", "TLA+ pointwise law (Recon.tla): elements are tokens with missing marks; TLC compares every element with its instant's own value",
  "Generated time arrays (shape, order, duplication, marks, representation), 1-D and 2-D.")
t("C25", "TLA+ portability law (Recon.tla); transported, permuted and restricted solutions compared by TLC, also in fresh processes",
  "Nine transport forms on generated solutions, to 2e-6 of the tide's size.")
t("C04", "TLA+ editing state machine (Edit.tla: raw samples with missing marks -> retained samples, reference time, span) model-checked exhaustively with mutants; TLC compares analyses of differently marked copies and the recorded weights, reference time and span with the machine's",
  "All short raw records exhaustively in the model; generated records (marks, representations, evenly spaced or not, 1-D/2-D) against the code, to 3e-8 of the data's size.")
t("C05", "TLA+ proleptic Gregorian calendar (Calendar.tla) model-checked over whole cycles; TLC computes the day number of each recorded normalisation and compares analyses and predictions of the same instants in every representation",
  "Instants of years 1..9999 in every documented representation and epoch form, to the millisecond; analyses to 3e-8 of the data's size.")
t("C06", "TLA+ request domains (Request.tla: Dom, FaultOutcome); TLC enumerates every fault kind over generated valid requests and judges the recorded outcome class",
  "Each fault class exhaustively, alone and over random valid requests; only documented outcome classes accepted, and never a result.")
t("C07", "TLA+ selection machine (Select.tla: Rayleigh rule over limb frequencies, listed names, inference bookkeeping) model-checked with mutants; TLC computes the analysed set of each recorded solve exactly",
  "Record lengths at and around the decision boundaries, every Rayleigh factor, listed sets and inference specifications; frequency comparison exact except within 1e-9 of a tie.")
t("C08", "TLA+ inference relation (Infer.tla) on abstract phasors and rotary pairs; TLC checks the relation on each recorded solution, equality over listings, the reference's intervals carried over, and recovery of generated related tides",
  "Generated references/inferred sets, ratios and offsets, listings permuted and grouped; relation to 3e-7; approximate inference within 5%.")
t("C11", "TLA+ result schema (Request.tla: Schema) ; TLC enumerates the documented option space and judges each recorded result's fields, counts and ranges",
  "Pairwise-and-random coverage of every documented option value and input form.")
t("C14", "TLA+ transformation laws (Law.tla) model-checked on abstract tides; TLC compares recorded analyses of transformed data with the law applied to the base analysis",
  "Scaling, sign, constants, trends and rotations over generated configurations incl. robust, inference, confidence; to 1.2e-6 of the data's size (robust 3e-5). Monte Carlo intervals only for power-of-two factors (otherwise the degenerate covariances give other draws).")
t("C15", "TLA+ transformation law (Law.tla, identity) ; TLC compares analyses of the same data under generated presentation and uncertainty options, their weights, predictions and output",
  "Generated configurations x options (confidence method, white, order, verbosity, Monte Carlo draw); to 3e-8 of the data's size; output captured at file-descriptor level, warnings included.")
t("C22", "TLA+ tidal equation (Tide.tla: argument V, factor F, phase U at the reference time) and abstract tide (Obs.tla); TLC checks that recorded analyses under related conventions denote one tide",
  "All related convention pairs for generated separated sets (about 100 constituents per run), noisy data, any era and latitude; to 4e-6 + 3e-6 of the factor.")
t("C24", "TLA+ laws FromScalars/Mirrored on rotary pairs (Law.tla), model-checked; TLC compares recorded vector analysis with the two scalar ones and the exchanged one",
  "Generated configurations incl. zero, proportional and negative second components, automatic selection; to 1.2e-6 of the data's size.")
t("C26", "TLA+ tables and frequencies in limb arithmetic (Tide.tla); TLC checks every published constituent and the frequencies of generated solutions",
  "All 146 constituents exhaustively (1e-9 cph against Doodson numbers, 3e-10 for compounds, maps exact); solution frequencies to 1e-11 cph over all eras.")
t("C16", "TLA+ reweighting machine (Robust.tla: solve / measure residuals / reweight / stop on tolerance, limit or divergence, revert) model-checked with mutants; TLC checks recorded weights, optimality of the returned solution for exactly those weights and recovery under contamination",
  "All nine weight functions over generated records with isolated and clustered gross errors of any size; weighted optimality along every coordinate, recovery for redescending functions within a multiple of the noise.")
t("C17", "TLA+ calibration (Calib.tla: textbook widths for amplitudes, axes, phases, inclinations); exact moments of the estimates propagated by TLC (MC_Calib) and errors of ellipses derived for noise of any covariance (MC_CalEll), with mutants; recorded ensembles judged by a stateful TLC monitor that counts covered truths and accumulates squared width ratios",
  "Generated ensembles of 60 realisations (ordinary least squares, linear and Monte Carlo, scalar and vector, isotropic, anisotropic and correlated noise, with and without inference): coverage within six standard deviations of 95%, widths within 5% (linear), 8% (Monte Carlo) of the textbook for long records, a factor of two for coloured ones. Constituents below the Nyquist frequency of the mean sampling rate.")
t("C23", "TLA+ band model (Band.tla: band averages without constituents' bins) model-checked with mutants; TLC compares recorded intervals under noise confined to one band, raised, in one velocity component, with and without tide",
  "Generated configurations (all bands, samplings, 1-D/2-D, linear and Monte Carlo): proportionality to the noise of the own band within 17%, level within a factor, indifference to other bands and the other component, white intervals to the total variance, lines excluded, even against uneven sampling within 45% in power.")

t("C18", "TLA+ session machine (MC_Session.tla: tables, defaults, random state, arguments, results as shared objects), model-checked with five mutants; sessions generated by TLC replayed on the code (calls, failures, reuse, in-place changes of results, line-level thread schedules) and followed by the monitor Trace_Session.tla",
  "Each outcome is compared with the outcome of the same request alone in a process of its own (to 2e-6 of each field's size; observed bitwise), the published tables around every step. Threads are scheduled deterministically at line granularity within the package; numpy's own code is not interleaved. Monte Carlo is excluded from interleavings.")
t("C19", "TLA+ session machine (MC_Session.tla: ArgsKept, ResultsKept) with mutants; TLC-generated sessions with deep digests of every argument around every call, read-only, view and strided inputs, and arguments changed in place afterwards, followed by Trace_Session.tla",
  "Arrays (their bases too), masks, fill values, series, lists, tuples, dictionaries and coefficient sets, for successful and failing calls; estimates and predictions of held results after the arguments are overwritten.")
t("C21", "TLA+ session machine (MC_Session.tla: RandomKept) with mutant; TLC-generated sessions with seeding, the random state hashed around every call; Trace_Session.tla compares Monte Carlo results with the same seed alone, and estimates over seeds",
  "Three seeds per Monte Carlo request, in any history; every other request (failing ones and reconstructions included) must leave numpy's and Python's global random state alone.")
t("C20", "TLA+ abstract data type (BunchSpec.tla) model-checked with mutants; TLC-generated histories of operations replayed on Bunch and followed by the monitor Trace_Bunch.tla",
  "Random histories of 16 kinds of operation over two Bunches (keys that are identifiers or not, nested values, arrays), every observation after every step.")

t("C27", "TLA+ pipeline machine (UTide.tla, MC_UTide.tla: Submit, Check, Edit, Select, Fit, Diagnose, Reorder, Predict, Again) model-checked with five mutants; generated whole cycles on the code, whose every outcome TLC derives from the request and the marks of the samples (Trace_UTide.tla)",
  "Generated requests over every option and input form at once (1300 quick); thresholds at least 1e-5 away from ties (C07 and C12 decide ties); second analyses to 3e-6 of the largest amplitude.")
t("C28", "TLA+ value trees (Load.tla) model-checked; TLC-generated trees saved with scipy/numpy, loaded by the code, and compared with the tree TLC derives (Trace_Load.tla)",
  "Generated trees up to three levels; values, kinds, shapes and masks of every leaf; .mat and .npz.")

t("C29", "TLA+ law of superposition (Law.tla: Superposed, SumOk over phasors and rotary pairs) model-checked with mutants; TLC generates pairs of records and judges the analysis of their combination against the combination of their analyses",
  "Generated configurations (1-D/2-D, inference exact and approximate, automatic selection, missing samples, conventions), data of any kind; to 3e-7 of the data's size.")
t("C30", "TLA+ laws of time (Law.tla: shift and Backward on phasors and rotary pairs) model-checked; TLC generates records, shifts and reflections and judges the recorded analyses against each other",
  "Generated configurations (1-D/2-D, robust, inference, intervals linear white or coloured and none); shifts up to 40 years; estimates and predictions to 2e-6 of the data's size (robust 3e-5), intervals, energies and ratios within 1e-3.")
t("C31", "TLA+ configuration record (Config.tla: Recorded, Echo) model-checked with four faulty designs (MC_Config); TLC generates calls that give or omit each option and judges the recorded options, the repeated analysis and the fields of predictions",
  "Generated requests, each option given or omitted independently; two predictions per solution; repeated analyses to 1e-8.")
t("C32", "TLA+ machine of iteratively reweighted least squares (Irls.tla: weight functions in decimal floating point, stopping rules); TLC follows recorded runs with increasing iteration limits, verifying every oracle step (normal equations, residuals, weights) as well",
  "Generated real and complex problems, 9-16 equations and 1-3 unknowns, all nine weight functions; weights and coefficients to 1e-5. Runs whose end depends on rounding are not judged.")
t("C33", "TLA+ spectrum of a series given by its Fourier coefficients (Spectrum.tla: window, one-sided density, co-spectrum, bands; MC_Spectrum: variance and mean product of lines are conserved, two mutants); TLC judges the recorded band averages exactly",
  "Generated series of 100-240 samples with arbitrary coefficients (noise, red, lines), intervals of 1/2 to 3 hours, up to eight excluded frequencies, both methods on even times; to 1e-5. The frequency next above a band may count to it or not.")
