"""C24: scalar and vector analyses agree (Law.tla: FromScalars, Mirrored)."""
import numpy as np
import core, tidecommon as tc
from c09 import NOISE


def one(case):
    import utide
    rng = np.random.default_rng(case["seed"])
    ev = dict(k="sv", ok=True, err="", id=case["id"], degenerate=case["special"] != "free")
    try:
        d = tc.record(rng, dict(case, noise=NOISE[case["noise"]]))
        u, v = d["u"], d["v"]
        sp = case["special"]
        if sp == "zero":
            v = np.where(np.isnan(v), np.nan, 0.0)
        elif sp == "uzero":
            u = np.where(np.isnan(u), np.nan, 0.0)
        elif sp in ("proportional", "negative"):
            v = u * round(float(rng.uniform(0.05, 3)), 3) * (1 if sp == "proportional" else -1)
        bad = np.isnan(u) | np.isnan(v)
        u, v = np.where(bad, np.nan, u), np.where(bad, np.nan, v)
        o = tc.solve_opts(case, d["names"])
        days = d["days"]
        sol = lambda a, b: utide.solve(d["t"], a.copy(), None if b is None else b.copy(), lat=d["lat"], **o)
        size = max(d["size"], tc.magnitude(sol(u, v), days) / 4)
        tt = np.concatenate([d["t"][::71], d["t"][-1] + rng.uniform(0, 400, 12)])

        def run(a, b):
            c = sol(a, b)
            kw = dict(constit=[str(n) for n in c["name"]]) if len(c["name"]) else {}
            r = utide.reconstruct(tt, c, epoch="python", verbose=False, **kw)
            return tc.observe(c, size, days), core.quants(r["h"] if b is None else np.concatenate([r["u"], r["v"]]), 1e8 / size)
        ev["w"], ev["pw"] = run(u, v)
        ev["u"], ev["pu"] = run(u, None)
        ev["v"], ev["pv"] = run(v, None)
        ev["m"], ev["pm"] = run(v, u)
    except Exception as e:
        import traceback
        ev.update(ok=False, err=repr(e)[:200], tb=traceback.format_exc()[-700:])
    return ev


def run(ck):
    ck.mc("MC_Law", "MC_Law.cfg", workers=4)
    rng = np.random.default_rng(ck.seed)
    cases = ck.gen("Gen_Law", "Gen_Law_Sv.cfg", num=ck.scale(1500, 12000), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    can = []
    for e in evs[::40]:
        if e["ok"] and e["w"]["cs"]:
            w = e["w"]
            can.append(dict(e, w=dict(w, cs=[dict(w["cs"][0], L=w["cs"][0]["L"] + 10**4)] + w["cs"][1:])))
            can.append(dict(e, m=dict(e["m"], mean=e["m"]["mean"][::-1] if abs(e["m"]["mean"][0] - e["m"]["mean"][1]) > 10**4 else [10**8, 0])))
            can.append(dict(e, pu=[x + 10**4 for x in e["pu"]]))
    for b in ck.judge("Trace_Law", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::80]:
        ck.sample(dict(case=c, n=len(e["w"]["cs"]) if e["ok"] else None))
