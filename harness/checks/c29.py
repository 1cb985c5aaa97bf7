"""C29: the ordinary analysis is linear in the data (Law.tla: Superposed)."""
import numpy as np
import core, tidecommon as tc
from c09 import NOISE


def another(rng, d, case):
    """Other data at the same times, with the same missing samples."""
    n = len(d["t"])
    good = np.nonzero(np.isfinite(d["u"] if d["v"] is None else d["u"] + d["v"]))[0]
    hours = 24 * (d["t"] - d["t"][0])

    def series():
        x = 0.3 * rng.standard_normal(n) + rng.uniform(-1, 1) + rng.uniform(0.1, 1) * np.cos(2 * np.pi * rng.uniform(0.001, 0.3) * hours + rng.uniform(0, 6))
        what = rng.integers(5)
        if what == 0:
            x += np.cumsum(rng.standard_normal(n)) * 0.05
        elif what == 1:
            x[int(rng.integers(n))] += rng.choice([-30, 30])
        elif what == 2:
            x[:] = rng.uniform(-1, 1)
        elif what == 3:                      # an impulse
            x[:] = 0
            x[int(rng.choice(good))] = rng.choice([-1, 1]) * 10.0 ** rng.uniform(1, 6.5)
        return d["size"] * x
    u = np.where(np.isnan(d["u"]), np.nan, series())
    v = None if d["v"] is None else np.where(np.isnan(d["v"]), np.nan, series())
    return u, v


def one(case):
    import utide
    rng = np.random.default_rng(case["seed"])
    two = case["two"]
    ev = dict(k="sum", ok=True, err="", id=case["id"], vars=[])
    try:
        d = tc.record(rng, dict(case, noise=NOISE[case["noise"]]))
        o = tc.solve_opts(case, d["names"])
        inf = tc.make_infer(rng, case, d["names"], two)
        if inf:
            o["infer"] = inf
        tt = np.concatenate([d["t"][::97], d["t"][-1] + rng.uniform(-30, 30, 8)])
        sol = lambda u, v: utide.solve(d["t"], u, v, lat=d["lat"], **o)
        x, y = (d["u"], d["v"]), another(rng, d, case)

        def both(u, v):
            c = sol(u, v)
            r = utide.reconstruct(tt, c, epoch="python", verbose=False, min_SNR=0)
            return c, np.concatenate([r["u"], r["v"]]) if two else r["h"]
        xy = [both(*q) for q in (x, y)]
        size = max([16 * d["size"]] + [max(tc.magnitude(c, d["days"]), float(np.abs(p).max())) for c, p in xy])
        rec = lambda c, p: dict(obs=tc.observe(c, size, d["days"]), p=core.quants(p, 1e8 / size))
        run = lambda u, v: rec(*both(u, v))
        a, b = (rec(*q) for q in xy)
        ev.update(base=a["obs"], other=b["obs"], px=a["p"], py=b["p"])
        for k1, k2 in ((1, 1), (int(rng.choice([-3, -2, 2, 3])), int(rng.choice([-2, -1, 1, 2])))):
            z = [None if p is None else k1 * np.asarray(p, float) + k2 * q for p, q in zip(x, y)]
            ev["vars"].append(dict(form=f"{k1} x + {k2} y", k1=k1, k2=k2, **run(*z)))
    except Exception as e:
        import traceback
        ev.update(ok=False, err=repr(e)[:200], tb=traceback.format_exc()[-700:])
    return ev


def run(ck):
    ck.mc("MC_Law", "MC_Law.cfg", workers=4)
    rng = np.random.default_rng(ck.seed)
    cases = ck.gen("Gen_Law", "Gen_Law_Sum.cfg", num=ck.scale(1500, 12000), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    can = []
    for e in evs[::40]:
        if e["ok"] and e["base"]["cs"]:
            v = e["vars"]
            can.append(dict(e, vars=v[:1] + [dict(v[1], k1=v[1]["k1"] + 1)]))
            can.append(dict(e, vars=[dict(v[0], p=[v[0]["p"][0] + 10**4] + v[0]["p"][1:])]))
            k = "L" if "L" in v[0]["obs"]["cs"][0] else "A"
            can.append(dict(e, vars=[dict(v[0], obs=dict(v[0]["obs"], cs=[dict(v[0]["obs"]["cs"][0], **{k: v[0]["obs"]["cs"][0][k] + 10**4})] + v[0]["obs"]["cs"][1:]))]))
    for b in ck.judge("Trace_Law", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::80]:
        ck.sample(dict(case=c, vars=[v["form"] for v in e["vars"]]))
    ck.extra["related_analyses"] = sum(2 + len(e["vars"]) for e in evs)
