"""C04: missing samples contribute nothing, however they are marked (Edit.tla)."""
import numpy as np
import core, tidecommon as tc

EP = np.datetime64("0000-12-31T00:00:00.000", "ms")


def pattern(rng, kind, n, other=None):
    """True where missing."""
    m = np.zeros(n, bool)
    if kind in ("scatter", "scatterends"):
        m |= rng.random(n) < 0.08
    if kind in ("start", "both"):
        m[:int(rng.integers(1, n // 4))] = True
    if kind in ("end", "both"):
        m[n - int(rng.integers(1, n // 4)):] = True
    if kind == "inner":
        a = int(rng.integers(n // 4, n // 2))
        m[a:a + n // 6] = True
    if kind == "scatterends":
        m[[0, -1]] = True
    if kind == "alternate":
        m[1::2] = True          # leaves every second sample: still evenly spaced
    if kind == "overlap":
        m = other ^ (rng.random(n) < 0.05)
    return m


def rep_data(x, miss, form, rng):
    """The series x with the missing values marked in the given way."""
    x = x.copy()
    n = len(x)
    if form in ("nan", "series", "list", "inf", "neginf", "mixed", "half"):
        val = {"inf": np.inf, "neginf": -np.inf}.get(form, np.nan)
        if form in ("mixed", "half"):
            val = rng.choice([np.nan, np.inf, -np.inf], n)[miss]
        if form == "half":                      # some masked, some NaN, some both
            k = rng.random(n)
            x[miss & (k < 0.6)] = np.nan
            mk = miss & (k > 0.4)
            x[mk & ~np.isnan(x)] = 9e36
            return np.ma.array(x, mask=mk)
        x[miss] = val
        if form == "series":
            import pandas as pd
            return pd.Series(x)
        return list(x) if form == "list" else x
    junk = rng.choice([1e30, -3.0, 1e20, 0.0], n)
    x[miss] = junk[miss]
    if form == "int":
        return np.ma.array(np.round(np.clip(x, -2**30, 2**30)).astype("int32"), mask=miss)
    return np.ma.array(x, mask=miss, hard_mask=form == "hard", fill_value=7.0)


def rep_time(days, miss, form, rng):
    """Times (day numbers at whole ticks) with missing ones marked; returns (array, epoch)."""
    import pandas as pd
    n = len(days)
    if form in ("float", "list", "posinf", "masked", "mixed"):
        t = days + (366 if form == "posinf" else 0)
        ep = "matlab" if form == "posinf" else "python"
        if form == "masked":
            t[miss] = rng.choice([0.0, 1e9, -1e7, 5e5], n)[miss]
            return np.ma.array(t, mask=miss), ep
        if form == "mixed":
            k = rng.random(n)
            t[miss & (k < 0.5)] = np.nan
            t[miss & (k >= 0.5)] = 1e7
            return np.ma.array(t, mask=miss & (k > 0.3)), ep
        t[miss] = np.inf if form == "posinf" else np.nan
        return (list(t) if form == "list" else t), ep
    d = np.array([EP + np.timedelta64(int(round(x * 86400000)), "ms") for x in days], dtype="datetime64[ms]")
    if form == "mdt64":
        d[miss] = d[0] + np.timedelta64(77, "D")
        return np.ma.array(d, mask=miss), None
    d[miss] = np.datetime64("NaT")
    return (pd.Series(d) if form == "series" else pd.DatetimeIndex(d) if form == "dindex" else d), None


def one(case):
    import utide
    rng = np.random.default_rng(case["seed"])
    two = case["two"]
    ev = dict(ok=True, err="", id=case["id"], two=two, auto=case["constit"] == "auto", ss=[], res=[], sel=dict(timed=[], kept=[]))
    try:
        n = int(rng.integers(380, 520))
        if case["grid"] in ("late", "one") and rng.random() < 0.6:
            n = int(rng.integers(1020, 1500))
        dt = int(rng.choice([32, 48, 64]))
        tick = np.arange(n) * dt
        if case["grid"] == "jitter":
            tick = tick + rng.integers(-8, 9, n)
        if case["grid"] == "late":                     # even, but for the end
            a = int(rng.integers(n // 2, n - 2))
            tick[a:] = tick[a - 1] + np.arange(1, n - a + 1) * (dt - int(rng.integers(1, 9)))
        if case["grid"] == "one":                      # even, but for one sample
            tick[int(rng.integers(1, n - 1))] += int(rng.choice([-1, 1])) * int(rng.integers(2, 9))
        if case["grid"] == "hole":
            tick[n // 2:] += dt * int(rng.integers(1, 60))
        day0 = int(rng.integers(715000, 750000))
        days = day0 + tick / 1024
        mt = pattern(rng, case["tpat"], n)
        mu = pattern(rng, case["upat"], n)
        mv = pattern(rng, case["vpat"], n, mu) if two else np.zeros(n, bool)
        if (~(mt | mu | mv)).sum() < 120:
            mu[:], mv[:] = False, False
        kept = ~(mt | mu | mv)
        names = list(tc.GROUPS[int(rng.integers(0, 3))])
        import refmodel as rm
        A, g = rng.uniform(0.3, 1, len(names)), rng.uniform(0, 360, len(names))
        t0, lat = days.mean(), round(float(rng.uniform(-80, 80)), 2)
        u = rm.predict_scalar(names, A, g, 0.4, 0.01, days, t0, lat, "Greenwich", "exact") + 0.2 * rng.standard_normal(n)
        v = rm.predict_scalar(names, A[::-1], g[::-1], -0.3, 0.02, days, t0, lat, "Greenwich", "exact") + 0.2 * rng.standard_normal(n) if two else None
        if "int" in (case["uform"], case["vform"]):
            u = np.round(u * 1000)
            v = np.round(v * 1000) if two else None
        size = 1000.0 if "int" in (case["uform"], case["vform"]) else 1.0
        o = tc.solve_opts(case, names)
        del o["epoch"]
        Rm = float(rng.choice([0.7, 1.0, 1.3]))
        if ev["auto"]:
            o["Rayleigh_min"] = Rm
        # whole-record names for both candidate spans
        if ev["auto"]:
            for key, w in (("timed", ~mt), ("kept", kept)):
                x = days[w]
                tt = x[0] + (x[-1] - x[0]) * np.arange(65) / 64
                c = utide.solve(tt, np.cos(np.arange(65.0)), lat=lat, conf_int="none", trend=False, Rayleigh_min=Rm, epoch="python", verbose=False)
                ev["sel"][key] = [str(x) for x in c["name"]]
        ev["ss"] = [[int(tick[i]), int(not mt[i]), int(not mu[i]), int(not mv[i])] for i in range(n)]
        ones = np.ones(n, bool)
        no = np.zeros(n, bool)

        def add(form, pre, tf, uf, vf):
            w = {"all": ones, "timed": ~mt, "kept": kept}[pre]
            t, ep = rep_time(days[w].copy(), mt[w], tf, rng)
            uu = rep_data(u[w], mu[w], uf, rng)
            vv = rep_data(v[w], mv[w], vf, rng) if two else None
            coef = utide.solve(t, uu, vv, lat=lat, epoch=ep, **o)
            x = []
            for key in ("A_ci", "g_ci", "Lsmaj_ci", "Lsmin_ci", "theta_ci", "PE", "SNR"):
                if key in coef and pre != "kept":
                    k = np.argsort(coef["name"].astype(str))
                    x += core.flts(np.asarray(coef[key])[k])
            ev["res"].append(dict(form=form + f"({tf},{uf},{vf})", pre=pre, ref2=core.quant(2 * (coef["aux"]["reftime"] - day0), 1024), nw=len(coef["weights"]),
                                  names=[str(x) for x in coef["name"]], obs=tc.observe(coef, size, days[-1] - days[0]), x=x if pre != "kept" else []))
        add("plain", "all", "float", "nan", "nan")
        add("first", "all", case["tform"], case["uform"], case["vform"])
        add("second", "all", case["tform2"], case["uform2"], case["vform2"])
        add("timed", "timed", case["tform2"], case["uform"], case["vform"])
        ev["res"].append(None)
        add("kept", "kept", "float", "nan", "nan")
        k = ev["res"].pop()
        ev["res"].pop()
        k["x"] = ev["res"][0]["x"]           # the spectrum of the residual may use the times of dropped samples
        ev["res"].append(k)
    except Exception as e:
        import traceback
        ev.update(ok=False, err=repr(e)[:200], tb=traceback.format_exc()[-600:])
    return ev


def run(ck):
    ck.mc("MC_Edit", "MC_Edit.cfg", workers=8)
    for i, inv in ((1, "MarkBlind"), (2, "OnlyTrueValues|MarkBlind"), (3, "AsSpecified|MarkBlind|Removable")):
        ck.mc("MC_Edit", f"MC_Edit_mut{i}.cfg", expect_violation=inv)
    rng = np.random.default_rng(ck.seed)
    cases = ck.gen("Gen_Edit", "Gen_Edit.cfg", num=ck.scale(420, 6000), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    can = []
    for e in evs[::40]:
        if e["ok"]:
            r = e["res"][1]
            can.append(dict(e, res=[e["res"][0], dict(r, obs=dict(r["obs"], mean=[x + 500 for x in r["obs"]["mean"]]))] + e["res"][2:]))
            can.append(dict(e, res=[dict(x, ref2=x["ref2"] + 9) for x in e["res"]]))
    for b in ck.judge("Trace_Edit", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::90]:
        ck.sample(dict(case=c, refs=[r["ref2"] for r in e["res"]], n=[r["nw"] for r in e["res"]], err=e["err"]))
