#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech],
        observe_at=observe, hook_needed=None)))

S, R, H, A, C, CF, PG, RF, T, U, D, K, E = ("utide/_solve.py", "utide/_reconstruct.py", "utide/harmonics.py",
  "utide/astronomy.py", "utide/constituent_selection.py", "utide/confidence.py", "utide/periodogram.py",
  "utide/robustfit.py", "utide/_time_conversion.py", "utide/utilities.py", "utide/diagnostics.py",
  "utide/_ut_constants.py", "utide/ellipse_params.py")

p("C01", "Predictions follow the tidal equation",
  "Reconstructing a coefficient set gives, at every valid time, mean + trend*(t - reference time) + the sum over the included constituents of F*A*cos(2*pi*(V+U) - g) (the elliptical counterpart for velocities), where V is the standard astronomical argument, compound constituents combine those of their parents with the tabulated signed coefficients, and F and U are the satellite (nodal) corrections for the latitude. It holds for every tabulated constituent, any date and latitude (latitudes within 5 degrees of the equator use 5 degrees of the same hemisphere; the equator itself counts as north) and every combination of phase (Greenwich, linear_time, raw) and nodal (exact, linear_time, none) convention.",
  ["inputs", "configurations"], "all tabulated constituents, all dates, latitudes, amplitudes/phases, all 9 convention combinations, any length or order of the time array",
  "test_FUV compares one latitude, one century and five times with Matlab output, and calls FUV directly, not the prediction; other latitudes (equator, southern), dates, 2-D, trend and convention combinations in reconstruct are only smoke-run.",
  [H, A, R, K], [("FUV", H), ("ut_astron", A), ("linearized_freqs", H), ("_reconstruct", R)], ["reconstruct() output h / u / v"],
  [("F,U,V", "nodal amplitude factor, nodal phase, astronomical argument", "utide/harmonics.py:FUV")])

p("C02", "A known tide is recovered exactly",
  "When the data are exactly a combination of the analysed constituents plus a mean (and a linear trend if one is fitted), solve returns every constituent's amplitude and phase lag (for velocities: semi-axes with the sign of rotation, inclination and phase), the mean and the trend per day to numerical precision; a constituent absent from the data gets amplitude zero. This holds for regular, irregular and gappy sampling at increasing times, any date, latitude and combination of phase and nodal conventions.",
  ["inputs", "configurations"], "all tides, constituent sets, samplings, gaps, latitudes, conventions, scalar and vector series",
  "test_roundtrip uses a single M2 tide, raw phase, no nodal correction, no trend; HNL compares 4 fixed data sets.",
  [S, H, E], [("_solv1 design matrix and coefficient extraction", S), ("ut_cs2cep", E), ("ut_E", H)], ["solve() result A,g / Lsmaj,Lsmin,theta,g / mean,slope"])

p("C03", "The ordinary fit is the least-squares optimum",
  "With ordinary least squares, for any data, no change of any reported amplitude, phase, ellipse parameter, mean or trend (inferred constituents moving with their reference) brings the full reconstruction closer, in the mean-square sense, to the valid samples. Hence reconstructing at the sample times with all constituents gives the best approximation the model allows.",
  ["inputs", "configurations"], "all data (noise included), samplings, gaps, constituent sets, conventions, 1-D and 2-D, with and without trend and inference",
  "Existing tests only compare a few amplitudes on near-noise-free data; they cannot see a fit that is slightly off the optimum or that disagrees with what reconstruct predicts.",
  [S, R], [("_solv1 lstsq and coefficient extraction", S), ("_reconstruct", R)], ["solve() result perturbed and fed to reconstruct()"])

p("C04", "Missing samples contribute nothing, however marked",
  "A sample whose time, u or v is missing has no influence on the analysis, and how it is marked (NaN, infinity, NaT, masked element) or what value lies under a mask makes no difference. A sample without a valid time is treated as never supplied; a velocity sample missing either component is dropped for both; the reference time and the span used for constituent selection come from the valid times when these are evenly spaced and from the retained samples otherwise.",
  ["inputs"], "all placements and all kinds of missing markers in t, u, v, including first/last samples and combinations",
  "test_masked_input uses one mask pattern and valid numbers under the mask, so ignoring the mask would pass.",
  [S, T], [("_slvinit editing steps", S), ("_normalize_time", T)], ["solve() results, reference time, weights length"],
  [("tin,t,u,v", "edited series", "utide/_solve.py:_slvinit"), ("equi,tref,lor", "spacing flag, reference time, record length", "utide/_solve.py:_slvinit")])

p("C05", "Time representation does not matter",
  "The same instants give the same analysis and the same prediction whether given as datetime64 of any resolution, Python datetimes, a pandas date index, or days since 'python', 'matlab' or any calendar epoch given as string, date or datetime. Normalised times are days of the proleptic Gregorian calendar with 1.0 = 0001-01-01T00:00, to the millisecond.",
  ["inputs", "configurations"], "all calendar dates and times of day, all representations and epochs, for solve and reconstruct",
  "test_normalize checks six representations of one instant and two nine-day ranges; solve/reconstruct are never compared across representations.",
  [T, S, R], [("_normalize_time, _date2num", T)], ["reconstruct() t_mpl and h, solve() reference time and coefficients"])

p("C06", "Invalid requests are refused",
  "solve never returns a result for an invalid request: an unknown option or constituent name raises KeyError; a missing latitude, inputs that are not one-dimensional or differ in shape, an undocumented value of conf_int, method, phase, nodal or order_constit, SNR ordering without confidence intervals, an inference specification with missing keys or lists of inconsistent length, or an unusable epoch raises ValueError. Likewise reconstruct raises ValueError for time arrays of more than one dimension or an unusable epoch.",
  ["inputs", "configurations"], "every single and combined violation of the documented request format, over otherwise arbitrary requests",
  "Only one invalid request (SNR order without confidence intervals) is tested.",
  [S, R, T, U], [("_process_opts, _translate_opts, validate_infer, validate_order_constit, _slvinit", S), ("Bunch.update_values(strict)", U)], ["exceptions raised by solve()/reconstruct()"])

p("C07", "Constituents are selected by the Rayleigh rule or as listed",
  "With automatic selection the analysed set is exactly the tabulated constituents whose decision-tree frequency separation is at least Rayleigh_min divided by the record length; with a list it is exactly the listed names. With inference (names of inferred constituents distinct and not themselves references), every reference and inferred constituent appears exactly once, whether or not it was selected, and the reported counts, names and frequencies (those at the reference time) agree with that set.",
  ["inputs", "configurations"], "all record lengths, Rayleigh factors, gap patterns, lists and inference specifications",
  "Automatic selection is exercised at four record lengths with Rayleigh 1 or 0.95.",
  [C, S, H], [("ut_cnstitsel", C), ("linearized_freqs", H)], ["solve() result name, counts, aux.frq"])

p("C08", "Inferred constituents keep the given relation exactly",
  "Each inferred constituent has amplitude equal to its ratio times its reference's amplitude and phase lag equal to the reference's minus its offset (for velocities this holds separately for the two counter-rotating circular components with their own ratio and offset), regardless of how references and inferred constituents are listed or grouped. When the data really contain constituents so related, exact inference recovers all of them; approximate inference does so approximately for records long enough to separate the reference from the other constituents. Ratios and offsets are taken as exact, so the linearized interval of an inferred constituent is that of its reference carried over: amplitudes in the given ratio, phases and orientations the same, semi-axes by the circular components.",
  ["inputs", "configurations"], "all reference/inferred groupings and orders, ratios, offsets, scalar and vector series, conventions, trend on/off",
  "One scalar case (3 inferred, 2 references) is compared with Matlab; 2-D and approximate inference are never run.",
  [C, S], [("ut_cnstitsel R/I bookkeeping", C), ("_solv1 Etilp/Etilm and apI/amI", S)], ["solve() A,g / ellipse parameters by name"])

p("C09", "Ordering only permutes the result",
  "order_constit changes only the order in which constituents are reported: every per-constituent quantity (name, frequency, amplitude, ellipse parameters, phase, intervals, PE, SNR) stays attached to its constituent. The order is non-increasing PE (default), non-increasing SNR, non-decreasing frequency, or exactly the given sequence, and predictions do not depend on it.",
  ["configurations", "inputs"], "all orders x confidence settings x 1-D/2-D x inference x data",
  "test_order uses 4 constituents without inference and checks only the reconstruction, not the association or sortedness.",
  [S], [("_reorder", S), ("validate_order_constit", S)], ["solve() per-constituent arrays under different order_constit"])

p("C10", "PE and SNR diagnostics are what they say",
  "PE is each constituent's share of the total energy (A^2, or Lsmaj^2+Lsmin^2) in percent, so it is non-negative and sums to 100; SNR is that energy divided by the squared standard errors implied by the 95% intervals. The diagnostic table lists the same names, PE and SNR in decreasing PE, and SNR is present exactly when confidence intervals were requested.",
  ["inputs", "configurations"], "all analyses with diagnostics, 1-D and 2-D, with inference, any order option",
  "No test looks at PE, SNR or the diagnostics table.",
  [D, S], [("_PE, _SNR, ut_diagn", D)], ["solve() PE, SNR, diagn"])

p("C11", "Every documented option combination yields a complete result",
  "Every combination of documented option values and input forms (arrays, lists, series, names as list/tuple/array, inference as dict or Bunch, all robust weight functions) is accepted, and the result holds exactly the fields that configuration calls for: scalar or ellipse parameters, means, slopes only with a trend, intervals, SNR and diagnostics only with confidence intervals. All per-constituent arrays have one finite entry per constituent, intervals are non-negative, phases lie between 0 and 360 (both included) and inclinations between 0 and 180 degrees, semi-minor magnitudes do not exceed semi-major, and there is one weight per retained sample. (Monte Carlo intervals with inference are the documented exception.)",
  ["configurations", "inputs"], "the full product of documented option values and input forms over well-posed data that are not identically zero",
  "A handful of combinations is run; three of nine weight functions, dict inference, list inputs and approximate inference are never run.",
  [S, CF, RF, C, E], [("solve option handling", S), ("_confidence", CF), ("weight functions", RF), ("ut_cs2cep", E)], ["keys, shapes and ranges of the solve() result"])

p("C12", "Reconstruction includes exactly the requested constituents",
  "reconstruct includes the named constituents that the solution has when constit is given (whatever the thresholds), otherwise exactly those with SNR >= min_SNR and PE >= min_PE, where the SNR test applies only if the solution has confidence intervals. The result is the mean and trend plus the sum of the included constituents' contributions.",
  ["inputs", "configurations"], "all solutions, name lists, threshold values (including ones equal to a constituent's value), 1-D and 2-D, with and without intervals",
  "Selections are smoke-run; no test checks which constituents were used.",
  [R], [("_reconstruct selection", R)], ["reconstruct() output compared with sums of single-constituent reconstructions"])

p("C13", "Reconstruction is pointwise in time",
  "The reconstructed series has one value per requested time, missing exactly where the time is missing (NaN, NaT, infinite or masked), and each value depends only on its own time: not on the other requested times, their order, spacing, number or duplication, nor on whether the time lies inside the analysed record.",
  ["inputs"], "all time arrays: scalars, empty, permuted, duplicated, sliced, unevenly spaced, with missing entries at any place",
  "reconstruct is only ever called with the analysed, strictly increasing, fully valid time array.",
  [R, T], [("reconstruct goodmask handling", R), ("_normalize_time", T)], ["reconstruct() h,u,v"])

p("C14", "Results transform with the data",
  "Multiplying the data by a positive factor multiplies amplitudes, axes, mean, slope and their intervals by it and leaves phases, PE and SNR alone; a negative factor also turns phases by 180 degrees; adding a constant or (with a trend fitted) a linear trend changes only mean and slope. Rotating velocities by any angle turns the inclination and the mean vector by that angle and leaves axes and phases alone, and for right-angle rotations the linearized intervals too; all of this for ordinary and (for scaling) robust fits.",
  ["inputs", "configurations"], "all data, factors, offsets, rotation angles, options",
  "No test compares two related analyses.",
  [S, CF, PG, RF, E], [("_solv1", S), ("_confidence", CF), ("band_psd", PG), ("robustfit", RF), ("ut_cs2cep", E)], ["pairs of solve() results"])

p("C15", "Presentation and uncertainty options leave the estimates alone",
  "conf_int, white, order_constit, verbose and the Monte Carlo draw have no effect on the estimated amplitudes, phases, ellipse parameters, mean, slope or weights. With verbose=False neither solve nor reconstruct writes anything to standard output or error, and turning messages on changes no result.",
  ["configurations", "inputs"], "all option combinations x data",
  "test_order compares reconstructions under one option only; output is never captured.",
  [S, R, CF], [("_solv1", S), ("_confidence", CF)], ["groups of solve() results; captured stdout/stderr"])

p("C16", "The robust fit resists outliers and reports its weights",
  "For every documented weight function the robust method returns, with each retained sample, a weight in [0,1]; the reported solution is the least-squares solution of the equations multiplied by exactly those weights; and with noise-free-to-moderately-noisy data contaminated by a small fraction of gross errors of any size, redescending weight functions recover the tide about as well as if the bad samples had been removed. On data without outliers the robust result agrees with ordinary least squares to within the noise.",
  ["inputs", "configurations"], "all weight functions, tuning and iteration limits, outlier positions and sizes, 1-D and 2-D",
  "test_robust checks one seed, one weight function, and only the standard deviation of a reconstruction to 2 decimals.",
  [RF, S], [("robustfit", RF), ("weight functions", RF)], ["solve(method='robust') coefficients, weights, rf"])

p("C17", "Confidence intervals are calibrated",
  "For ordinary least-squares analyses of data consisting of a tide plus white Gaussian noise, the 95% intervals of the constituents, inferred ones included (below the Nyquist frequency of the mean sampling rate) computed with the white-noise option (linearized or Monte Carlo, scalar or vector) contain the true parameters in about 95% of realisations and agree with the textbook value 1.96*sigma*sqrt(2/n) for long records, where sigma is the noise along the axis of the ellipse when the noise differs between directions (Monte Carlo: for correlated noise of the two components, too); with the default coloured-noise option they are within a factor of two of it. Intervals shrink like one over the square root of the record length.",
  ["inputs", "configurations"], "ensembles of noise realisations over tides, noise levels, record lengths, samplings, isotropic and anisotropic velocity noise, any ellipse orientation and phase",
  "test_MC prints the intervals without checking them.",
  [CF, PG], [("_confidence", CF), ("ut_linci", CF), ("band_averaged_psd_by_constit", CF)], ["*_ci fields over ensembles"])

p("C18", "No call influences another",
  "The result of any solve or reconstruct call depends only on its own arguments (and, for Monte Carlo, numpy's random state): any sequence or concurrent interleaving of calls, including failing ones, gives each call the result it gives alone in a fresh process. Nothing a caller does to a returned object changes a later call.",
  ["histories", "schedules"], "all call sequences (successes, errors, different latitudes, epochs, options) and thread interleavings, with results scribbled over in between",
  "Each test makes a few calls in one fixed order and never compares a repeated call; hidden module-level state (tables, defaults, caches) would survive.",
  [S, R, H, K, A, C], [("module-level tables and copies made before in-place arithmetic", H), ("default_opts", S), ("ut_constants", K)], ["solve()/reconstruct() results in session vs fresh process"],
  [("ut_constants", "shared constituent tables", K), ("default_opts", "shared defaults", S)])

p("C19", "Caller's data are never modified or retained",
  "solve and reconstruct leave every argument (arrays, masks, lists, option dictionaries, inference specifications, coefficient sets) exactly as it was, also when they raise. Later changes by the caller to those arguments do not change the returned estimates or later predictions from them.",
  ["inputs", "histories"], "all input forms (arrays, masked arrays, series, lists, dicts) and options, all call histories that modify arguments afterwards",
  "No test inspects its inputs after a call.",
  [S, R, T, C], [("_slvinit copies", S), ("_normalize_time", T), ("validate_infer", S)], ["arguments before/after the calls"])

p("C20", "A Bunch is a dictionary with attribute access",
  "For every sequence of operations a Bunch behaves as a dict whose items are equally readable and writable as attributes; a missing attribute raises AttributeError (a missing item KeyError). update_values changes existing keys only, update_None only those whose value is None, and with strict an unknown key raises KeyError and changes nothing; from_pyfile adds the variables of a Python file, unless it fails; copies, pickles and printing preserve or show all contents for any contents.",
  ["histories"], "all operation sequences over keys/values, construction forms and copies",
  "Bunch is only used incidentally; no test of its own.",
  [U], [("Bunch", U)], ["public operations of utide.utilities.Bunch"], [("items", "dictionary contents", U)])

p("C21", "Monte Carlo is reproducible and isolated",
  "With numpy's random seed fixed, a Monte Carlo analysis gives identical intervals every time; its point estimates do not depend on the seed. No other configuration of solve, and no call of reconstruct, draws from or reseeds numpy's random state.",
  ["histories", "configurations"], "all call sequences and option combinations, seeds",
  "test_MC seeds once and checks nothing.",
  [CF, S, R], [("np.random.multivariate_normal calls", CF)], ["*_ci fields and numpy random state around calls"])

p("C22", "Phase and nodal conventions are consistent",
  "Raw and linear_time phases of the same analysis (with nodal corrections off or at linear_time) differ exactly by the astronomical argument at the reference time, and nodal='linear_time' differs from no nodal correction exactly by the factor F and phase U at the reference time; all four give identical predictions. Latitude influences nothing when nodal corrections are off.",
  ["inputs", "configurations"], "all data, dates, latitudes, constituents, 1-D and 2-D",
  "All solve tests but HNL use raw phases without nodal correction; conventions are never related to each other.",
  [H, S, R], [("ut_E / FUV flags", H), ("_translate_opts", S)], ["groups of solve() results and predictions differing in convention"])

p("C23", "Coloured-noise intervals follow the noise in the constituent's band",
  "With the default (non-white) setting the interval of a constituent below the Nyquist frequency of the mean sampling rate is governed by the residual spectrum in its own frequency band: raising the noise in one band raises the intervals of that band's constituents accordingly and leaves those in distant bands nearly alone, whereas with white=True all intervals follow the total residual variance. Energy exactly at analysed constituents does not count as noise, even and uneven sampling of the same process agree, and the spectra of two velocity components and their co-spectrum are those of either component alone and of their sum, and turn with the velocities.",
  ["inputs", "configurations"], "all bands, noise levels, samplings (even, gappy, uneven), 1-D and both velocity components",
  "test_periodogram compares two spectral estimators on one random series; the mapping of bands to constituents and to intervals is untested.",
  [PG, CF], [("band_psd, fbndavg, _lomb_freqs", PG), ("band_averaged_psd_by_constit", CF)], ["*_ci fields for data with noise added in one band"])

p("C24", "Scalar and vector analyses agree",
  "Analysing (u, v) gives the same u and v predictions, means and slopes as analysing u and v separately; a velocity with zero or proportional second component has degenerate ellipses whose major axis and phase match the scalar analysis. Exchanging roles of the components mirrors the ellipses.",
  ["inputs", "configurations"], "all data, constituent sets, samplings, conventions, ordinary least squares without inference",
  "No test relates scalar and vector analyses.",
  [S, E, R], [("_solv1 twodim branches", S), ("ut_cs2cep", E), ("_reconstruct twodim branches", R)], ["solve()/reconstruct() results"])

p("C25", "A solution is self-contained and portable",
  "A solution that was copied, deep-copied, pickled, converted to plain nested dictionaries, or whose constituents were consistently permuted or subset gives the same predictions as the original restricted to those constituents, in the same or another process. reconstruct needs nothing but the solution and the times.",
  ["histories", "inputs"], "all solutions, transport forms, permutations and subsets, processes",
  "Solutions are only used as returned, in the process that made them.",
  [R, U], [("_reconstruct reads only coef items", R), ("Bunch", U)], ["reconstruct() on transported solutions"])

p("C26", "Published constituent tables are mutually consistent",
  "The published tables list 146 distinct constituents; the name index, cycles-per-hour and hours-per-cycle maps agree with them and with each other; every compound's frequency is the signed combination of its parents'; every frequency matches its Doodson numbers; and each solution reports the frequency of the named constituent at its reference time.",
  ["inputs", "histories"], "all constituents, all reference dates, after any use of the library",
  "Tables are only used, never checked.",
  [K, H], [("ut_constants loading and derived maps", K), ("linearized_freqs", H)], ["utide.ut_constants, constit_index_dict, cycles_per_hour, hours_per_cycle; aux.frq"])

p("C27", "Analysis and prediction compose and are a projection",
  "For any request - whatever its options, inference, ordering, input forms and missing samples are combined with - either the request is refused, or the constituents, the retained samples, the reference time, the partition, the fields, the order and the constituents of a filtered prediction are what the request and the marks of the samples alone determine. Analysing the full prediction of a solution at its own sample times under the same options (approximate inference apart) gives the same constituents and the same estimates again, and analysing what an ordinary fit leaves over gives zero amplitudes, mean and slope.",
  ["inputs", "configurations", "histories"], "all requests and data: option combinations together with every placement of missing samples, sampling, record length, latitude, date and scale; second analyses of predictions and residuals",
  "Existing tests exercise one stage or one option at a time on complete records, and never feed a prediction or a residual back.",
  [S, R, C, D], [("_solv1", S), ("_slvinit", S), ("_reorder", S), ("ut_cnstitsel", C), ("ut_diagn", D), ("_reconstruct", R)], ["solve() result, reconstruct() output, second solve() result"])

p("C28", "Loaded structures mirror what was saved",
  "loadbunch returns, for a .mat or .npz file, nested Bunches with exactly the saved names (those starting with a double underscore left out): structures become Bunches, single values Python scalars or strings, other arrays keep their values with dimensions of length one removed; with masked=True exactly the non-finite elements of floating point arrays are masked, with masked=False nothing is. Other file names raise ValueError. convert_unicode_arrays returns a new Bunch in which arrays of strings are object arrays of the same strings without trailing blanks, at every level, everything else unchanged, and leaves its argument alone; showmatbunch lists every leaf once, under its full name, in order.",
  ["inputs"], "all nested structures of numbers, strings and arrays of any shape, with and without non-finite values",
  "Loading is only exercised on fixed Matlab files with a known layout.",
  [U], [("loadbunch", U), ("_structured_to_bunch", U), ("_crunch", U), ("convert_unicode_arrays", U), ("showmatbunch", U)], ["results of loadbunch, convert_unicode_arrays, showmatbunch"])

p("C29", "The ordinary analysis is linear in the data",
  "With ordinary least squares, the analysis of a combination k1*x + k2*y of two records with the same times and missing samples is that combination of their analyses: the phasors (rotary components for velocities) of every constituent, the mean and the slope, and the predictions; for any data, factors, set of constituents (automatic selection included), conventions and inference (approximate inference included).",
  ["inputs", "configurations"], "all pairs of records at common times, all factors, constituent sets, inference relations, conventions, scalar and vector",
  "Existing tests analyse one record at a time; superposition relates three analyses of data that no tide generated.",
  [S, R, H], [("_solv1 model matrix, inference factors and lstsq", S), ("_reconstruct", R)], ["three solve() results and their predictions"])

p("C30", "With raw phases and no nodal corrections only differences of time matter, in both directions",
  "With raw phases and without nodal corrections, moving all times of a record, be it by decades, leaves every result unchanged to within the drift of the tabulated frequencies: estimates, percent energies, signal-to-noise ratios, intervals, weights and predictions at the moved times. Reading the record backwards in time (inference offsets mirrored) conjugates the phasors, exchanges the rotary components of velocities, reverses the slope, keeps means and white intervals, and reverses weights and predictions.",
  ["inputs", "configurations"], "all data, samplings, shifts, eras, sets of constituents, inference relations, scalar and vector, robust and ordinary",
  "Existing tests analyse data at one place in time and in one direction.",
  [S, R, H, CF], [("_solv1 reference time", S), ("ut_E, FUV", H), ("_confidence", CF), ("_reconstruct", R)], ["solve() and reconstruct() results of a record and of its images"])

p("C31", "Results record how they were made",
  "A solution keeps the latitude and a value for every documented option: the one given, or else the documented default; giving these options again, to the same data, is accepted and repeats the analysis and its record, whatever was left to the defaults the first time. A prediction has exactly the documented fields: the series, the time argument itself, the same instants as day numbers (the very argument for epoch 'python'; the attribute t_mpl warns that it is deprecated), and epoch, constituents, min_SNR and min_PE as given or their documented defaults (None, None, 2 and 0). The caller's options are left as they were.",
  ["inputs", "configurations"], "all requests with any of the options given or left out, all forms of the options and of times, scalar and vector",
  "Existing tests look at single fields of a few results and never repeat an analysis from what a solution records.",
  [S, R], [("_process_opts, default_opts, _translate_opts", S), ("_slvinit", S), ("reconstruct", R)], ["solve() result aux, second solve() result, fields of reconstruct() results"])

p("C32", "The robust fit follows the named weight function and its tuning",
  "robustfit is iteratively reweighted least squares: the first fit is the ordinary one; each further one multiplies the equations by the named weight function of the residuals of the fit before, divided by the tuning constant (as given, or the tabulated default), by their median size over 0.6745 and by the square root of one minus the leverage. It ends at the iteration limit, when the mean squared weighted residual improves by less than the tolerance, or when it grows, which brings back the fit before. Coefficients, weights, number of iterations, residual sizes, ordinary fit and leverages are those of that course; uniform weights ('ols') give the ordinary fit.",
  ["inputs", "configurations"], "all weight functions, tuning constants, tolerances, iteration limits, design matrices and data, real and complex",
  "Existing tests look at the final result of one weight function on one record.",
  ["utide/robustfit.py"], [("robustfit", "utide/robustfit.py"), ("leverage, r_normed, sigma_hat", "utide/robustfit.py"), ("weight functions, tune_defaults", "utide/robustfit.py")], ["robustfit() results with increasing iteration limits"])

p("C33", "Noise spectra are band averages of the one-sided periodogram",
  "For an evenly sampled series band_psd gives, in every one of its bands, the mean over the band's Fourier frequencies of the one-sided periodogram of the series without its mean under a Hann window, in squared units per cycle per hour, of each component and, with its sign, of their co-spectrum; the frequencies nearest to the given constituents are left out, and a band without frequencies is NaN. The method for uneven sampling gives the same for even times; the origin of time, the mean and the odd sample at the end of a series do not matter, and the series is left as it was.",
  ["inputs"], "all evenly sampled real and complex series, sampling intervals, lengths, sets of constituents, both methods",
  "test_periodogram compares two estimators on one random series, which says nothing of their level, bands, exclusions or co-spectrum.",
  [PG], [("band_psd", PG), ("fbndavg", PG), ("_psd", PG), ("_psd_lomb, _ls_cross, _lomb_freqs", PG)], ["utide.periodogram.band_psd() results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P), "properties")
