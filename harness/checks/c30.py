"""C30: without reference to the astronomy, only time differences and no direction of time matter (Law.tla: Backward, Transformed)."""
import numpy as np
import core, tidecommon as tc
from c09 import NOISE
from c14 import xs


def one(case):
    import utide
    rng = np.random.default_rng(case["seed"])
    two = case["two"]
    ev = dict(k="time", ok=True, err="", id=case["id"], robust=case["method"] == "robust", vars=[])
    try:
        d = tc.record(rng, dict(case, noise=NOISE[case["noise"]]))
        o = tc.solve_opts(case, d["names"])
        inf = tc.make_infer(rng, case, d["names"], two)
        if inf:
            o["infer"] = inf
        t, u, v = (None if x is None else np.asarray(x, float) for x in (d["t"], d["u"], d["v"]))
        at = np.concatenate([t[::97], t[-1] + rng.uniform(-60, 60, 8)])
        size = d["size"]

        def mirrored(inf):                    # the same relation, read backwards
            k = len(inf["inferred_names"])
            swap = (lambda x: list(x[k:]) + list(x[:k])) if two else list
            return dict(inf, amp_ratios=swap(inf["amp_ratios"]), phase_offsets=[-x for x in swap(inf["phase_offsets"])])

        def run(t, u, v, at, back=False, ci=True):
            np.random.seed(case["seed"])
            c = utide.solve(t, u, v, lat=d["lat"], **(dict(o, infer=mirrored(inf)) if inf and back else o))
            r = utide.reconstruct(at, c, epoch="python", verbose=False, min_SNR=0)
            w = np.asarray(c["weights"], float)
            return dict(obs=tc.observe(c, size, d["days"]), x=xs(c, size) if ci else [], w=core.flts((w[::-1] if back else w)[:400]),
                        p=core.quants(np.concatenate([r["u"], r["v"]]) if two else r["h"], 1e8 / size))
        lin = case["conf"] == "linear"
        b = run(t, u, v, at, ci=case["conf"] != "MC")
        ev.update(base=b["obs"], x=b["x"], w=b["w"], p=b["p"])
        by = {"day": rng.uniform(-1, 1), "whole": float(rng.integers(-400, 400)), "far": rng.uniform(-15000, 15000)}[case["move"]]
        by = round(by * 1024) / 1024
        back = lambda z: None if z is None else z[::-1].copy()
        m = t[0] + t[-1]
        # the spectrum of an odd number of evenly spaced samples leaves out the last one
        ev["vars"] += [dict(form=f"moved by {by} days", back=False, **run(t + by, u, v, at + by, ci=case["conf"] != "MC")),
                       dict(form="backwards", back=True, **run((m - t)[::-1], back(u), back(v), m - at, back=True, ci=case["conf"] != "MC" and (case["white"] or not lin)))]
        n = len(ev["w"])
        if len(b["w"]) == 400:                 # only the ends are kept: compare like with like
            ev["w"], ev["vars"] = [], [dict(x, w=[]) for x in ev["vars"]]
    except Exception as e:
        import traceback
        ev.update(ok=False, err=repr(e)[:200], tb=traceback.format_exc()[-700:])
    return ev


def run(ck):
    ck.mc("MC_Law", "MC_Law.cfg", workers=4)
    rng = np.random.default_rng(ck.seed)
    cases = ck.gen("Gen_Law", "Gen_Law_Time.cfg", num=ck.scale(1200, 9000), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    can = []
    for e in evs[::40]:
        if e["ok"] and e["base"]["cs"]:
            v = e["vars"]
            can.append(dict(e, vars=[dict(v[1], back=False)]) if any(abs(c.get("l", c.get("A", 0))) > 10**6 for c in e["base"]["cs"]) and not e["robust"] else dict(e, vars=[dict(v[1], p=v[1]["p"][::-1])]))
            can.append(dict(e, vars=[dict(v[0], p=[v[0]["p"][0] + 10**4] + v[0]["p"][1:])]))
            can.append(dict(e, vars=[dict(v[0], obs=dict(v[0]["obs"], mean=[x + 10**4 for x in v[0]["obs"]["mean"]]))]))
    for b in ck.judge("Trace_Law", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::80]:
        ck.sample(dict(case=c, vars=[v["form"] for v in e["vars"]]))
