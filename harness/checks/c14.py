"""C14: results transform with the data (Law.tla)."""
import numpy as np
import core, tidecommon as tc
from c09 import NOISE

XK = ("A_ci", "g_ci", "Lsmaj_ci", "Lsmin_ci", "theta_ci", "PE", "SNR")


def xs(coef, scale, keys=XK):
    k = np.argsort(coef["name"].astype(str))
    out = []
    for key in keys:
        if key in coef:
            s = scale if key in ("A_ci", "Lsmaj_ci", "Lsmin_ci") else 1.0
            out += core.flts(np.asarray(coef[key], float)[k] / s)
    return out


def one(case):
    import utide
    rng = np.random.default_rng(case["seed"])
    two = case["two"]
    ev = dict(k="tr", ok=True, err="", id=case["id"], base=None, x=[], vars=[])
    try:
        d = tc.record(rng, dict(case, noise=NOISE[case["noise"]]))
        o = tc.solve_opts(case, d["names"])
        robust = case["method"] == "robust"
        inf = tc.make_infer(rng, case, d["names"], two)
        if inf:
            o["infer"] = inf
        if robust:
            o["robust_kw"] = dict(weight_function=case["wf"], maxit=200, tol=1e-9) if rng.random() < 0.5 else dict(weight_function=case["wf"])

        def run(u, v):
            np.random.seed(case["seed"])
            return utide.solve(d["t"], u, v, lat=d["lat"], **o)
        base = run(d["u"], d["v"])
        size, days = d["size"], d["days"]
        unit = max(size, tc.magnitude(base, days) / 4)
        ev["base"], ev["x"] = tc.observe(base, unit, days), xs(base, unit)
        z = [0, 0] if two else [0]
        zs = z if case["trend"] else []

        def add(form, u, v, rot=0, k=1.0, dm=None, ds=None, ci=True, less=None):
            c = run(u, v)
            if less is not None:
                for key, b in zip(("umean", "vmean") if two else ("mean",), less):
                    c[key] = c[key] - b
            ev["vars"].append(dict(form=form, rot=rot, dm=dm or z, ds=ds or zs, robust=robust, obs=tc.observe(c, unit * abs(k), days), x=xs(c, unit * abs(k)) if ci else []))
        for k in (float(rng.choice([0.001, 0.37, 3.7, 1e5])), 2.0 ** int(rng.integers(-20, 20))):
            # Monte Carlo: only powers of two keep the (degenerate) covariances' decompositions, hence the draws, comparable
            add(f"scaled by {k}", k * d["u"], None if d["v"] is None else k * d["v"], k=k, ci=case["conf"] != "MC" or np.log2(k) % 1 == 0)
        k = -float(rng.choice([1.0, 0.02, 50.0]))
        add(f"scaled by {k}", k * d["u"], None if d["v"] is None else k * d["v"], rot=180 * 10**6, k=k, ci=case["conf"] == "linear")
        if not robust:
            off = np.round(rng.uniform(-5, 5, 2), 3)
            tt = (d["t"] - base["aux"]["reftime"]) / days
            add("constant added", d["u"] + off[0] * size, None if d["v"] is None else d["v"] + off[1] * size, dm=core.quants(off[:len(z)], 1e8 * size / unit), ci=case["conf"] == "linear")
            big = off * float(rng.choice([1e2, 1e4, 1e6])) * size      # taken off the mean again before it is compared
            add("large constant added", d["u"] + big[0], None if d["v"] is None else d["v"] + big[1], ci=case["conf"] == "linear" and np.abs(big).max() < 1e4 * size * NOISE[case["noise"]] ** 0.5, less=big)
            if case["trend"]:
                add("trend added", d["u"] + off[0] * size * tt, None if d["v"] is None else d["v"] - off[1] * size * tt,
                    ds=core.quants([off[0], -off[1]][:len(z)], 1e8 * size / unit), ci=case["conf"] == "linear")
        if two and not robust:
            w = d["u"] + 1j * d["v"]
            for deg in (int(rng.choice([90, 180, 270])), round(float(rng.uniform(1, 359)), 3)):
                x = w * (np.exp(1j * np.radians(deg)) if deg % 90 else 1j ** int(deg // 90))
                add(f"rotated by {deg}", x.real.copy(), x.imag.copy(), rot=int(round(deg * 10**6)), ci=deg % 90 == 0 and case["conf"] == "linear")
    except Exception as e:
        import traceback
        ev.update(ok=False, err=repr(e)[:200], tb=traceback.format_exc()[-700:])
    return ev


def run(ck):
    ck.mc("MC_Law", "MC_Law.cfg", workers=4)
    rng = np.random.default_rng(ck.seed)
    cases = ck.gen("Gen_Law", "Gen_Law_Tr.cfg", num=ck.scale(400, 6000), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    can = []
    for e in evs[::25]:
        if e["ok"]:
            v = e["vars"]
            can.append(dict(e, vars=[dict(v[0], rot=v[0]["rot"] + 10**5)] + v[1:]))
            can.append(dict(e, vars=[dict(v[0], obs=dict(v[0]["obs"], mean=[x + 10**4 for x in v[0]["obs"]["mean"]]))] + v[1:]))
    for b in ck.judge("Trace_Law", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::80]:
        ck.sample(dict(case=c, vars=[v["form"] for v in e["vars"]]))
    ck.extra["related_pairs"] = sum(len(e["vars"]) for e in evs)
