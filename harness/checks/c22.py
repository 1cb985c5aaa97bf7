"""C22: phase and nodal conventions are consistent (Tide.tla, Obs.tla; Trace_Conv.tla)."""
import numpy as np
import core, tidecommon as tc, refmodel as rm
from c09 import NOISE


def times(rng, kind, span, dticks, day):
    """Strictly increasing instants, whole ticks; first + last is a whole number of ticks halved."""
    n = int(span * tc.TICKS / dticks) + 1
    n += (n + 1) % 2                                   # odd: the middle is a sample instant
    k = np.arange(n) * dticks
    if kind == "jitter":
        k[1:-1] += rng.integers(-dticks // 4, dticks // 4 + 1, n - 2)
    elif kind == "gappy":
        keep = rng.random(n) > 0.15
        a = int(rng.integers(n // 5, n // 2))
        keep[a:a + n // 8] = False
        keep[[0, -1]] = True
        k = k[keep]
    return k


def one(case):
    import utide
    rng = np.random.default_rng(case["seed"])
    two = case["two"]
    ev = dict(k="conv", ok=True, err="", id=case["id"])
    try:
        day = int(tc.era_start(rng, case["era"]) - tc.D0)
        dticks = 32
        k = times(rng, case["samp"], case["span"], dticks, day)
        t = tc.D0 + day + k / tc.TICKS
        t0 = tc.tick(day, int(k[0] + k[-1]) // 2)
        lat4 = int(round(tc.pick_lat(rng, case["lat"]) * 1e4))
        ref = tc.inst(t0)
        if case["sep"]:
            names = tc.pick_separated(rng, int(rng.integers(3, 14)), case["span"], 46, ref)
        else:
            names = list(tc.GROUPS[case["group"] % len(tc.GROUPS)])
        n = len(names)
        A, g = rng.uniform(0.1, 0.5, n), rng.uniform(0, 360, n)
        size = {"unit": 1.0, "tiny": 1e-6, "huge": 3e5}[case["size"]]
        noise = NOISE[case["noise"]]
        if two:
            u, v = rm.predict_vector(names, A, A * rng.uniform(-0.8, 0.8, n), rng.uniform(0, 180, n), g, 0.3, -0.2, 0.01, -0.004, t, ref, 40.0, "raw", "none")
            v = size * (v + noise * rng.standard_normal(len(t)))
        else:
            u, v = rm.predict_scalar(names, A, g, 0.3, 0.01, t, ref, 40.0, "raw", "none"), None
        u = size * (u + noise * rng.standard_normal(len(t)))
        if case["samp"] == "nangaps":
            bad = rng.random(len(t)) < 0.15
            u[bad] = np.nan
        days = t[-1] - t[0]
        o = dict(constit=names, epoch="python", verbose=False, conf_int="none", trend=case["trend"])
        if case["method"] == "robust":
            o.update(method="robust", robust_kw=dict(weight_function=case["wf"]))
        tt = np.concatenate([t[::131], t[-1] + rng.uniform(0, 500, 10), t[0] - rng.uniform(0, 500, 10)])

        first = utide.solve(t, u, v, lat=lat4 / 1e4, phase="raw", nodal=False, **o)
        size = max(size, tc.magnitude(first, days) / 2)

        def run(ph, nod, l4):
            c = utide.solve(t, u, v, lat=l4 / 1e4, phase=ph, nodal=tc.NODAL[nod], **o)
            r = utide.reconstruct(tt, c, epoch="python", verbose=False)
            return dict(ph=ph, nod=nod, lat=l4, form=f"{ph},{nod},lat={l4 / 1e4}", obs=tc.observe(c, size, days),
                        p=core.quants(np.concatenate([r["u"], r["v"]]) if two else r["h"], 1e8 / size))
        sets = [[run(p, q, lat4) for p in ("raw", "linear_time") for q in ("none", "linear_time")]]
        sets.append([run(p, "exact", lat4) for p in ("raw", "linear_time")])
        sets.append([run("Greenwich", q, lat4) for q in ("none", "linear_time")])
        ph = str(rng.choice(["raw", "linear_time", "Greenwich"]))
        other = [int(x) for x in rng.choice([-900000, 0, 900000, 10000, -500000, 263000], 2, replace=False)]
        sets.append([run(ph, "none", lat4)] + [run(ph, "none", x) for x in other])
        ev.update(t0=t0, idx={m: tc.IDX[m] + 1 for m in names}, sets=sets)
    except Exception as e:
        import traceback
        ev.update(ok=False, err=repr(e)[:200], tb=traceback.format_exc()[-700:])
    return ev


def run(ck):
    ck.mc("MC_Law", "MC_Law.cfg", workers=4)
    rng = np.random.default_rng(ck.seed)
    rm.bind(ck, rng)
    cases = ck.gen("Gen_Law", "Gen_Law_Conv.cfg", num=ck.scale(300, 5000), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    can = []
    for e in evs[::25]:
        if e["ok"]:
            s = e["sets"][0]
            off = dict(s[1]["obs"], cs=[dict(x, g=(x["g"] + 50000) % (360 * 10**6)) for x in s[1]["obs"]["cs"]])
            can.append(dict(e, sets=[[s[0], dict(s[1], obs=off)]]))
            can.append(dict(e, sets=[[s[0], dict(s[2], ph="raw")]]))
            can.append(dict(e, sets=[[s[0], dict(s[2], p=[x + 2000 for x in s[2]["p"]])]]))
    for b in ck.judge("Trace_Conv", evs, canary=can):
        ck.violation("; ".join(b["why"])[:400], dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::60]:
        ck.sample(dict(case=c, names=sorted(e["idx"]) if e["ok"] else None))
    ck.extra["constituents_related"] = len({n for e in evs if e["ok"] for n in e["idx"]})
