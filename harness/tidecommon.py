"""Helpers around the code under test shared by the checks."""
import json, os
import numpy as np
import core

D0 = 693595.5          # day number of the specification's instant <<0, 0>>
TICKS = 1024
TAB = json.load(open(os.path.join(core.SPEC, "tables.json")))
NAMES = [c["name"] for c in TAB]
IDX = {n: i for i, n in enumerate(NAMES)}       # 0-based
PHASE = {"Greenwich": "Greenwich", "linear_time": "linear_time", "raw": "raw"}
NODAL = {"exact": True, "linear_time": "linear_time", "none": False}


def inst(t):
    """<<day, tick>> to a day number (exact in floating point)."""
    return D0 + t[0] + t[1] / TICKS


def tick(day, k):
    d, k = day + k // TICKS, k % TICKS
    return [int(d), int(k)]


def random_day(rng, forbid=300):
    """A day count relative to 1899-12-31: modern, historical or remote."""
    while True:
        r = rng.random()
        if r < 0.45:
            d = int(rng.integers(18000, 56000))
        elif r < 0.75:
            d = int(rng.integers(-110000, 180000))
        else:
            d = int(rng.integers(-690000, 2500000))
        if abs(d) > forbid + 800:
            return d


def random_lat4(rng):
    r = rng.random()
    if r < 0.5:
        return int(rng.integers(-890000, 890000))
    if r < 0.75:
        return int(rng.integers(-52000, 52000))
    return int(rng.choice([0, 1, -1, 49999, -49999, 50000, -50000, 50001, 450000, -450000, 265651, -265651, 899999, -899999]))


def template(utide, names, t0, lat, phase, nodal, trend=True, twodim=False, half_ticks=2048, step=64):
    """A solution of the real code with reference time t0 (= <<day, tick>>), to be overwritten with known parameters."""
    k = np.arange(-half_ticks, half_ticks + 1, step)
    t = inst(t0) + k / TICKS
    x = np.cos(2.0 * np.arange(len(t)))
    return utide.solve(t, x, x[::-1].copy() if twodim else None, lat=lat, constit=list(names), conf_int="none", trend=trend,
                       phase=PHASE[phase], nodal=NODAL[nodal], epoch="python", verbose=False, order_constit=list(names))


# ---------------------------------------------------------------- observations
def ang6(x):
    """Angle to 1e-6 degree (no reduction: the range is itself specified)."""
    return core.quant(x, 1e6)


def observe(coef, size=1.0, days=1.0):
    """A solution of the code as the specification's record (spec/Obs.tla)."""
    two = "Lsmaj" in coef
    s = 1e8 / size
    names = [str(n) for n in coef["name"]]
    cs = []
    for i, n in enumerate(names):
        if two:
            cs.append(dict(n=n, L=core.quant(coef["Lsmaj"][i], s), l=core.quant(coef["Lsmin"][i], s), th=ang6(coef["theta"][i]), g=ang6(coef["g"][i])))
        else:
            cs.append(dict(n=n, A=core.quant(coef["A"][i], s), g=ang6(coef["g"][i])))
    mean = [coef["umean"], coef["vmean"]] if two else [coef["mean"]]
    if two:
        slope = [coef["uslope"], coef["vslope"]] if "uslope" in coef else []
    else:
        slope = [coef["slope"]] if "slope" in coef else []
    return dict(two=two, trend=bool(slope), cs=cs, mean=core.quants(mean, s), slope=[core.quant(x, s * days) for x in slope])


def magnitude(coef, days=1.0):
    """The largest parameter of a solution (badly resolved constituents and slopes can exceed the data many times)."""
    two = "Lsmaj" in coef
    x = [coef[k] for k in (("umean", "vmean") if two else ("mean",))] + [coef[k] * days for k in ("uslope", "vslope", "slope") if k in coef]
    return float(max(np.abs(x).max(), np.abs(coef["Lsmaj" if two else "A"]).max(initial=0)))


def pick_separated(rng, n, span, dtmin, t0, factor=1.3, pool=None):
    """Up to n constituents mutually separated by factor/record length, away from zero and from Nyquist.
    The greedy choice favours no particular constituent."""
    import refmodel
    hours = span * 24.0
    order = rng.permutation(len(NAMES)) if pool is None else rng.permutation([IDX[p] for p in pool])
    got, fr = [], []
    for c in order:
        if NAMES[c] in ("M7", "Z0"):
            continue
        f = refmodel.freq(int(c), t0)
        if f * hours < factor * 1.5 or f > 0.45 / (dtmin / 60.0):
            continue
        if all(abs(f - x) * hours >= factor for x in fr):
            got.append(NAMES[c])
            fr.append(f)
        if len(got) == n:
            break
    return got


def make_times(rng, kind, span, dtmin, start, cap=3000):
    """Sample times (strictly increasing) covering about `span` days from the day number `start`."""
    dt = dtmin / 1440.0
    n = int(round(span / dt)) + 1
    if kind == "dense":                        # many samples
        cap, n = 9000, 9000
        dt = 0.0
    if kind == "massive":                      # very many
        cap = n = int(rng.choice([22000, 34000, 70000]))
        dt = 0.0
    if n > cap or not dt:
        n = cap
        dt = span / (n - 1)
    t = start + np.arange(n) * dt
    if kind == "jitter":
        t = t + rng.uniform(-0.3, 0.3, n) * dt
    elif kind == "gappy":
        keep = rng.random(n) > 0.15
        a = int(rng.integers(n // 5, n // 2))
        keep[a:a + n // 8] = False
        keep[[0, -1]] = True
        t = t[keep]
    elif kind == "random":
        t = np.sort(rng.uniform(t[0], t[-1], n))
        t = t[np.concatenate([[True], np.diff(t) > 1e-6])]
    elif kind == "late":                       # even, but for the end
        a = int(rng.integers(n // 2, n - 3))
        t = np.concatenate([t[:a], t[a - 1] + np.arange(1, n - a + 1) * dt * rng.uniform(0.6, 0.95)])
    elif kind == "early":                      # even, but for the start
        a = int(rng.integers(3, n // 2))
        t[:a] = t[a] - dt * np.cumsum(rng.uniform(0.5, 1.0, a))[::-1]
    elif kind == "one":                        # even, but for one sample
        t[int(rng.integers(1, n - 1))] += dt * rng.choice([-0.4, 0.4])
    elif kind == "drift":                      # the sampling interval changes slowly
        t = t + 0.3 * dt * np.sin(np.linspace(0, np.pi, n))
    return t


def dress(x, kind):
    """The same array in another guise."""
    if x is None or kind in (None, "plain"):
        return x
    n = len(x)
    if kind == "strided":                      # every third element of a larger array
        y = np.full(3 * n, np.nan, x.dtype)
        y[1::3] = x
        return y[1::3]
    if kind == "backward":                     # a view with a negative stride
        return x[::-1].copy()[::-1]
    if kind == "column":                       # a column of a matrix
        y = np.zeros((n, 4), x.dtype)
        y[:, 2] = x
        return y[:, 2]
    if kind == "bigendian":
        return x.astype(x.dtype.newbyteorder(">"))
    if kind == "extended":
        return x.astype(np.longdouble)
    if kind == "readonly":
        x = x.copy()
        x.setflags(write=False)
        return x
    raise ValueError(kind)


def era_start(rng, era):
    if era == "modern":
        return D0 + int(rng.integers(20000, 52000)) + int(rng.integers(0, 96)) / 96
    if era == "old":
        return D0 + int(rng.integers(-60000, 110000)) + 0.5
    return D0 + int(rng.choice([-600000, -300000, 300000, 900000]) + rng.integers(0, 20000)) + 0.25


def pick_lat(rng, kind):
    if kind == "any":
        return round(float(rng.uniform(-89, 89)), 3)
    if kind == "band":
        return round(float(rng.uniform(-5.5, 5.5)), 3)
    return float(rng.choice([0.0, -0.0, 5.0, -5.0, 4.999, -4.999, 45.0, -45.0, 26.565, 90.0, -90.0]))


# ---------------------------------------------------------------- data for relations between analyses
GROUPS = [["M2", "S2", "O1", "K1"], ["M2", "O1"], ["N2", "M2", "S2", "K1", "O1", "Q1", "M4"], ["M2", "K1", "MSF", "M6", "MK3"],
          ["K1", "O1", "M2", "N2", "S2", "M4", "MS4", "M8", "2MK5"], ["MM", "O1", "K1", "M2", "S2", "SK3"], ["S2"], ["M2", "MF", "K1"],
          # hardly or not resolved within a month
          ["M2", "S2", "K2", "T2", "R2", "K1", "P1", "S1", "O1"], ["M2", "N2", "NU2", "H1", "S2", "K2", "K1", "P1", "O1", "Q1", "RHO1"],
          ["K1", "PHI1", "PSI1", "S1", "PI1", "P1", "S2", "T2", "R2"]]


def record(rng, case):
    """Times, noisy data and analysis arguments for a generated case.
    case keys used (all optional): two, samp, span, dtmin, nc, size, era, lat, noise, group."""
    g = case.get
    span = g("span", 30)
    dtmin = g("dtmin", 60)
    start = era_start(rng, g("era", "modern"))
    kind = g("samp", "regular")
    t = make_times(rng, "regular" if kind == "nangaps" else kind, span, dtmin, start)
    lat = pick_lat(rng, g("lat", "any"))
    import refmodel as rm
    if g("group") is not None:
        names = list(GROUPS[g("group") % len(GROUPS)])
    else:
        names = pick_separated(rng, g("nc", 5), t[-1] - t[0], dtmin * 1.6, t.mean())
    n = len(names)
    size = {"unit": 1.0, "tiny": 1e-6, "huge": 3e5}[g("size", "unit")]
    A = rng.uniform(0.2, 1.0, n)
    gph = rng.uniform(0, 360, n)
    th = rng.uniform(0, 180, n)
    t0 = 0.5 * (t[0] + t[-1])
    nodal = g("nodal", "exact")
    phase = g("phase", "Greenwich")
    noise = g("noise", 0.2)
    w, _ = (rm.predict_vector(names, A, A * rng.uniform(-0.8, 0.8, n), th, gph, 0.3, -0.2, 0.01, -0.004, t, t0, lat, phase, nodal)
            if g("two") else (rm.predict_scalar(names, A, gph, 0.3, 0.01, t, t0, lat, phase, nodal), None))
    u, v = w, _
    u = size * (u + noise * rng.standard_normal(len(t)))
    if v is not None:
        v = size * (v + noise * rng.standard_normal(len(t)))
    spoil = g("data", "plain")
    if spoil in ("spike", "burst"):            # gross errors
        m = 1 if spoil == "spike" else max(2, len(t) // 40)
        i = int(rng.integers(1, len(t) - m - 1))
        mag = 10.0 ** rng.uniform(1, g("bigmax", 2))
        big = size * mag * rng.choice([-1, 1])
        size = size * mag / 3
        u[i:i + m] += big
        if v is not None and rng.random() < 0.5:
            v[i:i + m] -= big
    elif spoil == "flat" and v is not None:    # nothing at all in one component
        (u if rng.random() < 0.5 else v)[:] = 0.0
    elif spoil == "lag":                       # noise with memory
        for x in (u, v):
            if x is not None:
                x += size * 0.1 * np.cumsum(rng.standard_normal(len(t)))
    if kind == "nangaps":
        drop = rng.random(len(t)) < 0.12
        a = len(t) // 3
        drop[a:a + len(t) // 10] = True
        u[drop] = np.nan
        if v is not None:
            v[drop | (rng.random(len(t)) < 0.05)] = np.nan
    k = g("carry", "plain")
    return dict(t=dress(t, k), u=dress(u, k), v=dress(v, k), lat=lat, names=names, size=size, t0=t0, days=t[-1] - t[0])


def solve_opts(case, names):
    """Keyword arguments of solve for a generated case."""
    g = case.get
    o = dict(epoch="python", verbose=False)
    if g("constit", "list") != "auto":
        o["constit"] = list(names)
    if "trend" in case:
        o["trend"] = case["trend"]
    o["phase"] = g("phase", "Greenwich")
    o["nodal"] = NODAL[g("nodal", "exact")]
    o["conf_int"] = g("conf", "none")
    if "white" in case:
        o["white"] = case["white"]
    if g("method", "ols") == "robust":
        o["method"] = "robust"
        o["robust_kw"] = dict(weight_function=g("wf", "cauchy"))
    return o


def by_name(coef, keys):
    """{name: {key: value}} of the per-constituent arrays."""
    return {str(n): {k: coef[k][i] for k in keys if k in coef} for i, n in enumerate(coef["name"])}


def make_infer(rng, case, avail, two):
    """An inference specification: case['infer'] in none/exact/approx; returns (dict or None, set of names involved)."""
    if case.get("infer", "none") == "none":
        return None
    fam = [("P1", "K1"), ("K2", "S2"), ("NU2", "N2"), ("RHO1", "Q1"), ("T2", "S2"), ("PI1", "K1"), ("S1", "K1"), ("PHI1", "K1"), ("R2", "S2"),
           ("LDA2", "M2"), ("H1", "M2"), ("TAU1", "O1")]
    fam = [f for f in fam if f[1] in avail and f[0] not in avail]
    if not fam:
        return None
    k = int(rng.integers(1, min(4, len(fam)) + 1))
    pick = [fam[i] for i in rng.permutation(len(fam))[:k]]
    m = 2 * k if two else k
    d = dict(inferred_names=[a for a, b in pick], reference_names=[b for a, b in pick],
             amp_ratios=[round(float(x), 3) for x in rng.uniform(0.05, 0.5, m)],
             phase_offsets=[round(float(x), 2) for x in rng.uniform(-170, 170, m)])
    if case["infer"] == "approx":
        d["approximate"] = True
    return d
