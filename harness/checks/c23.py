"""C23: coloured-noise intervals follow the noise of the constituent's own band (Band.tla, MC_Band.tla, Trace_Band.tla)."""
import numpy as np
import core, tidecommon as tc, refmodel as rm

BANDS = np.array([[10, 417], [3192, 4859], [7218, 8884], [11243, 12910], [15269, 16936], [19295, 20961], [23320, 25100], [26000, 29000], [30000, 50000]]) * 1e-5


def lines(rng, hours, T, band, dens):
    """Noise confined to a band, as a function of time: many lines of random amplitude with one-sided density dens."""
    df = 0.31 / T
    f = np.arange(band[0] + df / 2, band[1], df)
    f = np.clip(f + rng.uniform(-0.3, 0.3, len(f)) * df, band[0], band[1])
    a = rng.standard_normal((2, len(f))) * np.sqrt(dens * df)
    ph = 2 * np.pi * np.outer(hours, f)
    return np.cos(ph) @ a[0] + np.sin(ph) @ a[1]


def setting(rng, case):
    kind = case["samp"]
    span = 400 if case["long"] else case["span"]            # long: more Fourier frequencies in a band than are used
    t = tc.make_times(rng, "regular" if kind == "nangaps" else kind, span, 60, tc.era_start(rng, case["era"]), 10000)
    keep = np.ones(len(t), bool)
    if kind == "nangaps":
        keep = rng.random(len(t)) > 0.05
        a = len(t) // 3
        keep[a:a + len(t) // 40] = False
    t0 = 0.5 * (t[0] + t[-1])
    T = 24 * (t[-1] - t[0])
    ny = 0.5 * keep.sum() / T
    names = tc.pick_separated(rng, case["nc"], t[-1] - t[0], 60, t0, factor=1.6)
    names = [n for n in names if rm.freq(tc.IDX[n], t0) < 0.9 * ny]
    if case["long"] and rm.freq(tc.IDX["M8"], t0) < 0.9 * ny:
        names = ["M8"] + [n for n in names if abs(rm.freq(tc.IDX[n], t0) - rm.freq(tc.IDX["M8"], t0)) * T > 2]
    return t, keep, t0, T, ny, names


def bandof(f):
    for b, (lo, hi) in enumerate(BANDS):
        if lo <= f <= hi:
            return b


def solver(case, t, keep, names, lat, size):
    import utide
    o = tc.solve_opts(case, names)

    def go(u, v=None, white=False, tt=None, kk=keep):
        np.random.seed(case["seed"] % 2**31)
        u = np.where(kk, size * u, np.nan)
        v = None if v is None else size * v
        c = utide.solve(t if tt is None else tt, u, v, lat=lat, white=white, **o)
        at = {str(n): i for i, n in enumerate(c["name"])}
        return {k: np.array([c[k][at[n]] for n in names]) / size for k in ("A_ci", "Lsmaj_ci", "Lsmin_ci") if k in c}
    return go


def scale(rng, case):
    case = dict(case, nodal="none")     # factors that vary during the record change the intervals
    t, keep, t0, T, ny, names = setting(rng, case)
    lat = tc.pick_lat(rng, case["lat"])
    two, n = case["two"], len(names)
    size = {"unit": 1.0, "tiny": 1e-6, "huge": 3e5}[case["size"]]
    f = [rm.freq(tc.IDX[x], t0) for x in names]
    b = bandof(f[0 if case["long"] else int(rng.integers(n))])
    dens = 0.02 * rng.uniform(0.5, 1.5)
    hours = 24 * (t - t[0])
    band = BANDS[b].copy()
    part = case["part"] != "all" and (min(band[1], 0.97 * ny) - band[0]) * T > 40
    if part:                                            # noise in one part of the band, as far as it is sampled
        band[1] = min(band[1], 0.97 * ny)
        w = (band[1] - band[0]) / (5 if case["long"] else 2)
        band = np.array([band[0], band[0] + w] if case["part"] == "low" else [band[1] - w, band[1]])
    p = lines(rng, hours, T, band, dens)
    if part:
        dens *= (band[1] - band[0]) / (min(BANDS[b][1], ny) - BANDS[b][0])          # the average over the band
    bg = 0.01 * rng.standard_normal((2, len(t)))
    A, g, l = rng.uniform(0.4, 1, n), rng.uniform(0, 360, n), rng.uniform(-0.6, 0.6, n)
    F = np.abs(rm.basis(names, [t0], t0, lat, case["phase"], case["nodal"])[0])
    slope = 0.004 * case["trend"]
    comp, along = case["comp"], case["along"]
    if two:
        th = 90.0 * (comp if along == 0 else 1 - comp)      # the major axis along the disturbed component, or across
        U = rm.predict_vector(names, A, A * l, [th] * n, g, 0.2, 0.1, slope, -slope, t, t0, lat, case["phase"], case["nodal"])
    else:
        U = rm.predict_scalar(names, A, g, 0.2, slope, t, t0, lat, case["phase"], case["nodal"]), None
    go = solver(case, t, keep, names, lat, size)

    def ci(k, white=False):
        if not two:
            return go(U[0] + bg[0] + k * p, white=white)["A_ci"], np.zeros(n)
        r = go(U[0] + bg[0] + k * p * (comp == 0), U[1] + bg[1] + k * p * (comp == 1), white)
        a, x = r["Lsmaj_ci"], r["Lsmin_ci"]
        return (a, x) if along == 0 else (x, a)
    (c0, x0), (c1, _), (c3, x3), (w0, _), (w3, _) = ci(0), ci(1), ci(3), ci(0, True), ci(3, True)
    q = lambda z: core.quant(z, 1e8)
    cs = [dict(n=names[i], f8=core.quant(f[i], 1e8), F=core.flt(F[i]), c0=q(c0[i]), c1=q(c1[i]), c3=q(c3[i]), x0=q(x0[i]), x3=q(x3[i]), w0=q(w0[i]), w3=q(w3[i]))
          for i in range(n)]
    j = comp if two else 0
    return dict(two=two, mc=case["conf"] == "MC", even=case["samp"] == "regular", gap=case["samp"] == "nangaps", b=int(b) + 1, S=core.flt(dens), T=int(round(T)), ny=core.quant(ny, 1e8), cs=cs,
                n=int(keep.sum()), s0=core.flt(np.var(bg[j][keep])), s3=core.flt(np.var((bg[j] + 3 * p)[keep])), wlo=(500 if b == 0 else 720) - 150 * (case['conf'] == 'MC'), whi=1200 + 200 * (case['conf'] == 'MC'))


def tide(rng, case):
    t, keep, t0, T, ny, names = setting(rng, case)
    lat, n = tc.pick_lat(rng, case["lat"]), len(names)
    A, g, l, th = rng.uniform(0.4, 1, n), rng.uniform(0, 360, n), rng.uniform(-0.6, 0.6, n), rng.uniform(0, 180, n)
    noise = 0.1 * rng.standard_normal((2, len(t)))
    go = solver(case, t, keep, names, lat, 1.0)
    r = []
    for k in (0.3, 20.0):
        if case["two"]:
            u, v = rm.predict_vector(names, k * A, k * A * l, th, g, 0, 0, 0, 0, t, t0, lat, case["phase"], case["nodal"])
            # the estimated orientation must not change: let the noise be free of the analysed constituents
            r.append((u, v))
        else:
            r.append((rm.predict_scalar(names, k * A, g, 0, 0, t, t0, lat, case["phase"], case["nodal"]), None))
    # noise without any component at the analysed constituents: the residual of an analysis of it
    import utide
    o = tc.solve_opts(dict(case, conf="none"), names)
    c = utide.solve(t, np.where(keep, noise[0], np.nan), noise[1] if case["two"] else None, lat=lat, **o)
    f = utide.reconstruct(t, c, epoch="python", min_PE=0, verbose=False)
    res = [noise[0] - (f["u"] if case["two"] else f["h"]), noise[1] - f["v"] if case["two"] else None]
    a, b = [go(u + res[0], None if v is None else v + res[1]) for u, v in r]
    return dict(n=names, a=[[core.flt(a[k][i]) for k in sorted(a)] for i in range(n)], b=[[core.flt(b[k][i]) for k in sorted(a)] for i in range(n)])


def line(rng, case):
    from utide.periodogram import band_psd
    n = 1440
    b = int(rng.integers(1, 9))
    t = tc.make_times(rng, case["samp"], n / 24, 60, 0.0)[:n + case["odd"]]
    m = n
    tt = t[:m]
    rec = m * (tt[-1] - tt[0]) / (m - 1) * 24
    k = [j for j in range(1, m // 2 - 1) if BANDS[b][0] < (j - 2) / rec and (j + 2) / rec < BANDS[b][1]]
    k0 = int(k[int(rng.integers(2, len(k) - 2))])
    far = [j for j in k if abs(j - k0) > 3]
    f = k0 / rec
    hr = 24 * (t - t[0])
    e = np.cos(2 * np.pi * f * hr + rng.uniform(0, 6))
    if case["two"]:
        e = e + 0.7j * np.cos(2 * np.pi * f * hr + rng.uniform(0, 6))
    r = {}
    for lab, fr in (("on", f), ("off", far[int(rng.integers(len(far)))] / rec)):
        P = band_psd(t, e, np.array([fr]), equi=case["samp"] == "regular", frqosamp=1)
        r[lab] = [core.flt(P.Puu[b])] + ([core.flt(P.Pvv[b])] if case["two"] else [])
    return r


def even(rng, case):
    span = case["span"]
    te = tc.make_times(rng, "regular", span, 60, tc.era_start(rng, case["era"]))
    t0 = te.mean()
    names = tc.pick_separated(rng, case["nc"], span, 90, t0, factor=1.6)
    lat, n = tc.pick_lat(rng, case["lat"]), len(names)
    lev = 0.01 * 4.0 ** rng.uniform(-0.5, 0.5, len(BANDS))
    acc, runs = {}, 8
    for r in range(runs):
        st = rng.integers(2**31)
        tu = tc.make_times(rng, case["samp"], span, 60, te[0])
        A, g, l, th = rng.uniform(0.4, 1, n), rng.uniform(0, 360, n), rng.uniform(-0.6, 0.6, n), rng.uniform(0, 180, n)
        for lab, t in (("a", te), ("b", tu)):
            s = np.random.default_rng(st)
            z = [sum(lines(s, 24 * (t - te[0]), span * 24, B, L) for B, L in zip(BANDS, lev)) for _ in range(2 if case["two"] else 1)]
            if case["two"]:
                u, v = rm.predict_vector(names, A, A * l, th, g, 0, 0, 0, 0, t, t0, lat, case["phase"], case["nodal"])
                z = [u + z[0], v + z[1]]
            else:
                z = [z[0] + rm.predict_scalar(names, A, g, 0, 0, t, t0, lat, case["phase"], case["nodal"]), None]
            c = solver(case, t, np.ones(len(t), bool), names, lat, 1.0)(*z)
            acc[lab] = acc.get(lab, 0) + sum(x**2 for x in c.values())
    return dict(n=names, a=core.flts(acc["a"]), b=core.flts(acc["b"]), lo=700, hi=1450)


def parts(rng, case):
    from utide.periodogram import band_psd
    t = tc.make_times(rng, "regular" if case["samp"] == "nangaps" else case["samp"], 60, 60, tc.era_start(rng, case["era"]))
    t = t[:len(t) - case["odd"]]
    t0, hr = t.mean(), 24 * (t - t[0])
    size = {"unit": 1.0, "tiny": 1e-6, "huge": 3e5}[case["size"]]

    def series():                       # what may be left of a velocity: noise, slow changes, offsets, gross errors
        x = rng.standard_normal(len(t)) * 10.0 ** rng.uniform(-2, 0)
        x += rng.uniform(-3, 3) * np.cos(2 * np.pi * rng.uniform(0.3, 4) * (hr / hr[-1]) + rng.uniform(0, 6)) + rng.uniform(-2, 2)
        if rng.random() < 0.3:
            x[int(rng.integers(len(t)))] += 30
        return size * x
    a, b = series(), series()
    if rng.random() < 0.5:
        b = b + rng.uniform(-1, 1) * a
    f = np.array([rm.freq(tc.IDX[n], t0) for n in tc.pick_separated(rng, case["nc"], 60, 90, t0)])
    go = lambda e: band_psd(t, e, f, equi=case["samp"] in ("regular", "nangaps"), frqosamp=1)
    P, R = go(a + 1j * b), go(1j * (a + 1j * b))
    return {k: core.flts(np.nan_to_num(x, nan=0.0)) for k, x in dict(uu=P.Puu, vv=P.Pvv, uv=P.Puv, u=go(a).Puu, v=go(b).Puu, w=go(a + b).Puu, ru=R.Puu, rv=R.Pvv, ruv=R.Puv).items()}


def corr(rng, case):
    """u and v correlated with one sign in the band of a constituent, with the other in another band."""
    case = dict(case, two=True, nodal="none", conf="MC")
    t, keep, t0, T, ny, names = setting(rng, case)
    lat, n = tc.pick_lat(rng, case["lat"]), len(names)
    size = {"unit": 1.0, "tiny": 1e-6, "huge": 3e5}[case["size"]]
    f = [rm.freq(tc.IDX[x], t0) for x in names]
    b = bandof(f[int(rng.integers(n))])
    b2 = [x for x in range(7) if x != b and BANDS[x][1] < ny]
    b2 = b2[int(rng.integers(len(b2)))]
    hours, dens = 24 * (t - t[0]), 0.02 * rng.uniform(0.5, 1.5)
    sgn = int(rng.choice([-1, 1]))
    p, p2 = lines(rng, hours, T, BANDS[b], dens), lines(rng, hours, T, BANDS[b2], dens) * 10.0 ** rng.uniform(-0.5, 0.8)
    bg = 0.003 * rng.standard_normal((2, len(t)))
    A, g, l = rng.uniform(0.4, 1, n), rng.uniform(0, 360, n), rng.uniform(-0.6, 0.6, n)
    th = rng.choice([45.0, 135.0], n)
    u, v = rm.predict_vector(names, A, A * l, th, g, 0.2, 0.1, 0, 0, t, t0, lat, case["phase"], case["nodal"])
    r = solver(case, t, keep, names, lat, size)(u + p + p2 + bg[0], v + sgn * (p - p2) + bg[1])
    cs = []
    for i in range(n):
        s = {b: sgn, b2: -sgn}.get(bandof(f[i]), 0)
        cs.append(dict(n=names[i], sgn=int(s if th[i] < 90 else -s), maj=core.quant(r["Lsmaj_ci"][i], 1e8), min=core.quant(r["Lsmin_ci"][i], 1e8)))
    return dict(cs=cs)


def one(case):
    rng = np.random.default_rng(case["seed"])
    try:
        return dict(k=case["kind"], ok=True, err="", **dict(scale=scale, tide=tide, line=line, even=even, parts=parts, corr=corr)[case["kind"]](rng, case))
    except Exception as e:
        import traceback
        return dict(k=case["kind"], ok=False, err=repr(e)[:200], tb=traceback.format_exc()[-700:])


def run(ck):
    ck.mc("MC_Band", "MC_Band.cfg")
    ck.mc("MC_Band", "MC_Band_skip.cfg", expect_violation="LinesDontCount")
    ck.mc("MC_Band", "MC_Band_map.cfg", expect_violation="OtherBand")
    rng = np.random.default_rng(ck.seed)
    rm.bind(ck, rng, 30)
    cases = ck.gen("Gen_Band", "Gen_Band.cfg", num=ck.scale(800, 9000), depth=60)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    can = []
    for e in evs[::9]:
        if not e.get("ok"):
            continue
        if e["k"] == "scale":
            lo, hi = BANDS[e["b"] - 1] * 1e8
            if any(lo <= c["f8"] <= hi for c in e["cs"]):
                can.append(dict(e, cs=[dict(c, c3=2 * c["c3"]) for c in e["cs"]]))
                can.append(dict(e, cs=[dict(c, c1=12 * c["c1"], c3=12 * c["c3"]) for c in e["cs"]]))
            can.append(dict(e, cs=[dict(c, w3=c["w3"] // 3) for c in e["cs"]]))
        elif e["k"] == "parts":
            can += [dict(e, v=e["u"]), dict(e, uv=[[2 * x, y] for x, y in e["uv"]])]
        elif e["k"] == "corr":
            if any(c["sgn"] for c in e["cs"]):
                can.append(dict(e, cs=[dict(c, maj=c["min"], min=c["maj"]) for c in e["cs"]]))
        elif e["k"] == "line":
            can.append(dict(e, on=e["off"]))
        else:
            can.append(dict(e, b=e["a"][::-1] if e["k"] == "tide" and e["a"][0] != e["a"][-1] else [[2 * x, y] for x, y in e["a"]] if e["k"] == "even" else [[[2 * y[0], y[1]] for y in x] for x in e["a"]]))
            if e["k"] == "even":
                can[-1] = dict(e, b=[[x, y + 1] for x, y in e["a"]])
    for b in ck.judge("Trace_Band", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::100]:
        ck.sample(dict(case=c, band=e.get("b") if e["k"] == "scale" else None))
    ck.extra["events_by_kind"] = {k: sum(e.get("k") == k for e in evs) for k in ("scale", "tide", "line", "even", "parts", "corr")}
