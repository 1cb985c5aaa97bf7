"""C02: a known tide is recovered exactly.  Configurations come from Gen_Fit.tla; TLC compares abstract and observed solutions."""
import numpy as np
import core, tidecommon as tc, refmodel as rm


def make_tide(rng, case, names):
    """An abstract tide (integers), in units of `size`."""
    nz = min(case["zero"], len(names) - 1)
    zero = list(names[:nz])
    cs = []
    for n in names:
        if case["two"]:
            L = 0 if n in zero else int(rng.integers(5 * 10**6, 10**8))
            f = {"free": rng.uniform(-1, 1), "circular": rng.choice([-1.0, 1.0]), "rectilinear": 0.0, "retrograde": rng.uniform(-0.9, -0.2)}[case["shape"]]
            th = int(rng.choice([0, 90, 179])) * 10**6 if rng.random() < 0.2 else int(rng.integers(0, 180 * 10**6))
            cs.append(dict(n=n, L=L, l=int(round(L * f)), th=th, g=int(rng.integers(0, 360 * 10**6))))
        else:
            A = 0 if n in zero else int(rng.integers(5 * 10**6, 10**8))
            cs.append(dict(n=n, A=A, g=int(rng.choice([0, 90, 180, 270])) * 10**6 if rng.random() < 0.2 else int(rng.integers(0, 360 * 10**6))))
    k = 2 if case["two"] else 1
    mean = [int(x) for x in rng.integers(-10**8, 10**8, k)]
    slope = [int(x) for x in rng.integers(-10**8, 10**8, k)] if case["trend"] else []   # over the record
    return dict(two=case["two"], trend=case["trend"], cs=cs, mean=mean, slope=slope), zero


def tide_series(tide, t, t0, days, lat, phase, nodal):
    """The data the tide means (unit size)."""
    names = [c["n"] for c in tide["cs"]]
    sl = [x / days for x in tide["slope"]] or [0, 0]
    arr = lambda k, s: np.array([c[k] for c in tide["cs"]]) / s
    if tide["two"]:
        return rm.predict_vector(names, arr("L", 1), arr("l", 1), arr("th", 1e6), arr("g", 1e6), tide["mean"][0], tide["mean"][1],
                                 sl[0], sl[1], t, t0, lat, phase, nodal)
    return rm.predict_scalar(names, arr("A", 1), arr("g", 1e6), tide["mean"][0], sl[0], t, t0, lat, phase, nodal), None


def solve_case(case):
    import utide
    rng = np.random.default_rng(case["seed"])
    size = {"unit": 1.0, "tiny": 1e-7, "huge": 4e6}[case["size"]]
    start = tc.era_start(rng, case["era"])
    kind = "regular" if case["samp"] == "nangaps" else case["samp"]
    t = tc.make_times(rng, kind, case["span"], case["dtmin"], start)
    lat = tc.pick_lat(rng, case["lat"])
    drop = np.zeros(len(t), bool)
    if case["samp"] == "nangaps":
        drop = rng.random(len(t)) < 0.2
        a = len(t) // 4
        drop[a:a + len(t) // 8] = True
        drop[[0, -1]] = rng.random(2) < 0.5
    kept = t[~drop]
    # the reference time of the analysis (C04 states and checks this rule)
    t0 = 0.5 * (t[0] + t[-1]) if kind == "regular" else 0.5 * (kept[0] + kept[-1])
    days = t[-1] - t[0]
    names = tc.pick_separated(rng, case["nc"], kept[-1] - kept[0], case["dtmin"] * (1.0 if kind == "regular" else 1.6), t0)
    tide, zero = make_tide(rng, case, names)
    u, v = tide_series(tide, t, t0, days, lat, case["phase"], case["nodal"])
    scale = size / 1e8
    u = u * scale
    v = None if v is None else v * scale
    u[drop] = np.nan
    if v is not None:
        v[drop] = np.nan
    order = {"default": None, "frequency": "frequency", "list": list(names)}[case["order"]]
    ev = dict(ok=True, err="", want=tide, zero=zero, got=None, id=case["id"])
    try:
        t, u, v = (tc.dress(x, case["carry"]) for x in (t, u, v))
        coef = utide.solve(t, u, v, lat=lat, constit=names, conf_int=case["conf"], trend=case["trend"], phase=case["phase"],
                           nodal=tc.NODAL[case["nodal"]], order_constit=order, epoch="python", verbose=False)
        ev["got"] = tc.observe(coef, size, days)
    except Exception as e:
        ev.update(ok=False, err=repr(e)[:200])
    ev["cond"] = dict(n=int((~drop).sum()), names=names, lat=lat, t0=t0)
    return ev


def run(ck):
    rng = np.random.default_rng(ck.seed)
    rm.bind(ck, rng, ck.scale(60, 300))
    ck.mc("MC_Ellipse", "MC_Ellipse.cfg", workers=4)
    cases = ck.gen("Gen_Fit", "Gen_Fit.cfg", num=ck.scale(1500, 14000), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(solve_case, cases)
    can = []
    for e in evs[::max(1, len(evs) // 10)]:
        if e["ok"]:
            e = dict(e, want=dict(e["want"], mean=[x + 300 for x in e["want"]["mean"]]))
            can.append(e)
    bad = ck.judge("Trace_Fit", evs, canary=can)
    for b in bad:
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for i in range(0, len(evs), max(1, len(evs) // 5)):
        ck.sample(dict(case=cases[i], want=evs[i]["want"], got=evs[i]["got"]))
    ck.extra["configurations"] = len({tuple((k, v) for k, v in c.items() if k not in ("seed", "id")) for c in cases})
    ck.extra["constituents_fitted"] = len({n for e in evs for n in e["cond"]["names"]})
    ck.assumptions += ["constituents of a case are separated by at least 1.3 divided by the record length",
                       "M7 is excluded (known finding of C01)"]
