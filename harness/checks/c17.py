"""C17: calibration of the confidence intervals (Calib.tla, MC_Calib.tla; the ensembles are judged by the monitor Trace_Calib.tla)."""
import numpy as np
import core, tidecommon as tc, refmodel as rm

WHITE_RUNS = 60


def times(rng, case):
    dt = case["dtmin"]
    while case["span"] * 1440 / dt > 2600:
        dt *= 2
    if dt > 180:
        dt = 180
    span = min(case["span"], 2900 * dt / 1440)
    kind = case["samp"]
    t = tc.make_times(rng, "regular" if kind == "nangaps" else kind, span, dt, tc.era_start(rng, case["era"]))
    keep = np.ones(len(t), bool)
    if kind == "nangaps":        # evenly spaced times, missing values: few, because the coloured spectrum interpolates over them
        keep = rng.random(len(t)) > 0.05
        a = len(t) // 3
        keep[a:a + len(t) // 40] = False
    return t, keep, dt


def tide(rng, case, names, t, t0, lat, inf):
    """A tide with generated parameters: (truth per constituent, complex or real series of unit size)."""
    n = len(names)
    A, g = rng.uniform(0.3, 1.0, n), rng.uniform(0, 360, n)
    l, th = A * rng.uniform(-0.7, 0.7, n), rng.uniform(0, 180, n)
    if inf:                      # the inferred constituents are there, related as said
        P, M = (A + l) / 2 * np.exp(1j * np.radians(th - g)), (A - l) / 2 * np.exp(1j * np.radians(th + g))
        if not case["two"]:
            P = A / 2 * np.exp(-1j * np.radians(g))
            M = P.conj()
        k = len(inf["inferred_names"])
        ref = [names.index(x) for x in inf["reference_names"]]
        r, o = (np.reshape(inf[x] if case["two"] else inf[x] * 2, (2, k)) for x in ("amp_ratios", "phase_offsets"))
        P = np.append(P, P[ref] * r[0] * np.exp(1j * np.radians(o[0])))
        M = np.append(M, M[ref] * r[1] * np.exp(-1j * np.radians(o[1])))
        A, l = abs(P) + abs(M), abs(P) - abs(M)
        th = np.degrees(np.angle(P) + np.angle(M)) / 2
        g = th - np.degrees(np.angle(P)) if case["two"] else -np.degrees(np.angle(P))
        names = names + inf["inferred_names"]
        n = len(names)
    b = case["trend"] * 0.01
    if case["two"]:
        u, v = rm.predict_vector(names, A, l, th, g, 0.3, -0.2, b, -b / 2, t, t0, lat, case["phase"], case["nodal"])
        tru = [[core.quant(A[i], 1e8), core.quant(l[i], 1e8), tc.ang6(th[i]), tc.ang6(g[i])] for i in range(n)]
    else:
        u, v = rm.predict_scalar(names, A, g, 0.3, b, t, t0, lat, case["phase"], case["nodal"]), None
        tru = [[core.quant(A[i], 1e8), tc.ang6(g[i])] for i in range(n)]
    return u, v, tru


def observe(coef, names, size, two):
    """Estimates and intervals in the order of names, as integers of the specification."""
    pos = {str(n): i for i, n in enumerate(coef["name"])}
    keys = ("Lsmaj", "Lsmin", "theta", "g") if two else ("A", "g")
    sc = [1e6 if k in ("theta", "g") else 1e8 / size for k in keys]
    est = [[core.quant(coef[k][pos[n]], s) for k, s in zip(keys, sc)] for n in names]
    ci = [[core.quant(coef[k + "_ci"][pos[n]], s) for k, s in zip(keys, sc)] for n in names]
    return est, ci


def few(case):
    """Few samples for the number of constituents: the tide differs from run to run, and with it the truth."""
    import utide
    rng = np.random.default_rng(case["seed"])
    two, span = case["two"], case["span"]
    start, lat = tc.era_start(rng, case["era"]), tc.pick_lat(rng, case["lat"])
    names = tc.pick_separated(rng, int(rng.integers(5, 10)), span, 120, start)
    n = int((2 * len(names) + 1 + case["trend"]) * rng.uniform(2.2, 3.5))
    t = start + np.sort(rng.choice(int(span * 96), n, replace=False)) / 96.0
    t0 = 0.5 * (t[0] + t[-1])
    size = {"unit": 1.0, "tiny": 1e-6, "huge": 3e5}[case["size"]]
    sig, an = case["sig"] / 3000, case["an"] / 10
    o = tc.solve_opts(dict(case, white=True, conf="linear"), names)
    evs = [dict(k="hdr", id=case["id"], two=two, n=n, S=[core.flt(sig**2 * x) for x in (1, an**2, 0)], kind="few", mc=False,
                cs=[dict(n=m, F=core.flt(1.0), tru=[], direct=False) for m in names])]
    for r in range(case["runs"] * 6):
        ev = dict(k="run", ok=True, err="", est=[], ci=[])
        try:
            u, v, ev["tru"] = tide(rng, case, names, t, t0, lat, None)
            e = sig * rng.standard_normal((2, n))
            c = utide.solve(t, size * (u + e[0]), None if v is None else size * (v + an * e[1]), lat=lat, **o)
            ev["est"], ev["ci"] = observe(c, names, size, two)
        except Exception as e:
            ev.update(ok=False, err=repr(e)[:200])
        evs.append(ev)
    return evs + [dict(k="end")]


def ensemble(case):
    import utide
    if case["kind"] == "few":
        return few(case)
    rng = np.random.default_rng(case["seed"])
    two = case["two"]
    t, keep, dt = times(rng, case)
    lat = tc.pick_lat(rng, case["lat"])
    t0 = 0.5 * (t[0] + t[-1])
    # the coloured spectrum reaches up to the Nyquist frequency of the mean sampling rate
    names = [n for n in tc.GROUPS[case["group"]] if rm.freq(tc.IDX[n], t0) < 0.42 * keep.sum() / (24 * (t[-1] - t[0]))]
    inf = tc.make_infer(rng, case, names, two)
    if inf:                      # judged are those that are no references, and one inferred from each (the others err with it)
        free = [n for n in names if n not in inf["reference_names"]] + [inf["inferred_names"][inf["reference_names"].index(r)] for r in dict.fromkeys(inf["reference_names"])]
    u, v, tru = tide(rng, case, names, t, t0, lat, inf)
    size = {"unit": 1.0, "tiny": 1e-6, "huge": 3e5}[case["size"]]
    sig = case["sig"] / 1000
    an, rho = case["an"] / 10, case["rho"] / 10
    o = tc.solve_opts(dict(case, white=case["kind"] != "coloured"), names)
    if inf:
        o["infer"] = inf
        tru = [x for x, n in zip(tru, names + inf["inferred_names"]) if n in free]
        names = [n for n in names + inf["inferred_names"] if n in free]
    F = np.abs(rm.basis(names, [t0], t0, lat, case["phase"], case["nodal"])[0])
    evs = [dict(k="hdr", id=case["id"], two=two, n=int(keep.sum()), S=[core.flt(sig**2 * x) for x in (1, an**2, rho * an)], kind=case["kind"], mc=case["conf"] == "MC",
                cs=[dict(n=n, F=core.flt(F[i]), tru=tru[i], direct=not (inf and n in inf["inferred_names"])) for i, n in enumerate(names)])]
    np.random.seed(case["seed"] % 2**31)
    for r in range(case["runs"]):
        ev = dict(k="run", ok=True, err="", est=[], ci=[])
        try:
            e = sig * rng.standard_normal((2, len(t)))
            x = u + e[0]
            x[~keep] = np.nan
            y = v + an * (rho * e[0] + (1 - rho**2)**0.5 * e[1]) if two else None
            c = utide.solve(t, size * x, None if y is None else size * y, lat=lat, **o)
            ev["est"], ev["ci"] = observe(c, names, size, two)
        except Exception as e:
            ev.update(ok=False, err=repr(e)[:200])
        evs.append(ev)
    return evs + [dict(k="end")]


def run(ck):
    ck.mc("MC_Calib", "MC_Calib.cfg", workers=1)
    ck.mc("MC_Calib", "MC_Calib_dof.cfg", expect_violation="Unbiased", workers=1)
    ck.mc("MC_Calib", "MC_Calib_half.cfg", expect_violation="VarCos", workers=1)
    ck.mc("MC_CalEll", "MC_CalEll.cfg", workers=1)
    ck.mc("MC_CalEll", "MC_CalEll_cross.cfg", expect_violation="Derivation", workers=1)
    rng = np.random.default_rng(ck.seed)
    rm.bind(ck, rng, 30)
    cases = ck.gen("Gen_Calib", "Gen_Calib.cfg", num=ck.scale(560, 3000), depth=60)
    for i, c in enumerate(cases):
        c["seed"], c["id"], c["runs"] = int(rng.integers(2**31)), i, ck.scale(60, 100)
    sess = core.pmap(ensemble, cases, limit=400)
    good = [(c, s) for c, s in zip(cases, sess) if isinstance(s, list)]
    for c, s in zip(cases, sess):
        if not isinstance(s, list):
            ck.violation(f"ensemble: {s}", dict(case=c))
    can = []
    for c, s in good[::12]:
        wide = [dict(e, ci=[[int(x * 1.4) if x < 10**9 else x for x in y] for y in e["ci"]]) if e["k"] == "run" else e for e in s]
        thin = [dict(e, ci=[[int(x * 0.7) for x in y] for y in e["ci"]]) if e["k"] == "run" else e for e in s]
        if c["kind"] in ("long", "few") and all(e.get("ok", True) for e in s):
            can += [wide, thin]
    bad = ck.judge("Trace_Calib", None, sessions=[s for _, s in good], canary=can)
    for b in bad:
        c, s = good[b["i"]]
        ck.violation("; ".join(b["why"]), dict(case=c, at=b["j"], header=s[0], event=s[b["j"]]))
    for c, s in good[::40]:
        ck.sample(dict(case=c, constituents=[x["n"] for x in s[0]["cs"]], samples=s[0]["n"]))
    ck.extra["ensembles"] = len(good)
    ck.extra["realisations"] = sum(len(s) - 2 for _, s in good)
    ck.extra["intervals"] = sum((len(s) - 2) * len(s[0]["cs"]) * (4 if c["two"] else 2) for c, s in good)
