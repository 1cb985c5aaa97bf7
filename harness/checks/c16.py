"""C16: the robust method (Robust.tla model; Trace_Robust.tla judge)."""
import copy
import numpy as np
import core, tidecommon as tc
from c03 import phasors, set_phasors


def kwargs(case):
    k = dict(weight_function=case["wf"])
    if case["maxit"]:
        k["maxit"] = case["maxit"]
    if case["tol"]:
        k["tol"] = (0, 1e-6, 0.1)[case["tol"]]
    if case["tune"]:
        k["tune"] = (0, 1.0, 3.5)[case["tune"]]
    return k


def directions(utide, d, coef, inf, two):
    """The weighted misfit at the solution and a step along every coordinate."""
    names = [str(x) for x in coef["name"]]
    good = np.isfinite(d["u"]) if d["v"] is None else np.isfinite(d["u"]) & np.isfinite(d["v"])
    w = np.asarray(coef["weights"], float)

    def sse(c):
        r = utide.reconstruct(d["t"], c, epoch="python", constit=names, verbose=False)
        e = (r["u"] - d["u"]) ** 2 + (r["v"] - d["v"]) ** 2 if two else (r["h"] - d["u"]) ** 2
        return float((w**2 * e[good]).sum())
    s0 = sse(coef)
    step = np.sqrt(2 * s0 / max((w**2).sum(), 1e-300))
    Z0 = phasors(coef, two)
    rel = {}
    if inf:
        k = len(inf["inferred_names"])
        r, ph = np.array(inf["amp_ratios"]), np.radians(inf["phase_offsets"])
        for j in range(k):
            rel.setdefault(inf["reference_names"][j], []).append((names.index(inf["inferred_names"][j]), r[j] * np.exp(1j * ph[j]),
                                                                  r[j + k] * np.exp(-1j * ph[j + k]) if two else None))
    q = lambda s: core.quant(s / s0, 1e6)
    dirs = []
    for i, n in enumerate(names):
        if inf and n in inf["inferred_names"]:
            continue
        for comp in ((0, 1) if two else (0,)):
            for dz, lab in ((step, "re"), (1j * step, "im")):
                s = []
                for sg in (1, -1):
                    c = copy.deepcopy(coef)
                    Z = [z.copy() for z in Z0] if two else Z0.copy()
                    zz = Z[comp] if two else Z
                    zz[i] += sg * dz
                    for j, Rp, Rm in rel.get(n, ()):
                        zz[j] += sg * dz * (Rm if comp else Rp)
                    set_phasors(c, two, Z)
                    s.append(q(sse(c)))
                dirs.append(dict(n=f"{n}.{comp}.{lab}", sp=s[0], sm=s[1]))
    for key in ("mean", "umean", "vmean", "slope", "uslope", "vslope"):
        if key in coef:
            h = step if "mean" in key else step / d["days"] * 3
            s = []
            for sg in (1, -1):
                c = copy.deepcopy(coef)
                c[key] = c[key] + sg * h
                s.append(q(sse(c)))
            dirs.append(dict(n=key, sp=s[0], sm=s[1]))
    return dirs


def one(case):
    import utide
    rng = np.random.default_rng(case["seed"])
    two, kind = case["two"], case["kind"]
    noise = (1e-3, 0.05, 0.3)[case["noise"]]
    ev = dict(k=kind, ok=True, err="", id=case["id"], nw=0, wmin=0, wmax=0, retained=0)
    try:
        if kind != "opt":
            case = dict(case, trend=True, infer="none", maxit=case["maxit"] if case["maxit"] > 50 else 0, tune=0, tol=case["tol"] if case["tol"] == 1 else 0)
        still = case["still"] if two and kind != "opt" else 0
        d = tc.record(rng, dict(case, noise=noise, carry="plain"))
        if still:                                    # one component without anything in it
            x = d["uv"[still - 1]]
            x[np.isfinite(x)] = 0.0
        n = len(d["t"])
        clean = dict(d)
        if kind == "con" or kind == "opt" and rng.random() < 0.4:
            m = max(1, int((0, 0.005, 0.02, 0.04, 0.14)[case["frac"]] * n))
            # not the first and last samples: without them raw and linear_time phases refer to another time
            i = np.arange(m) + int(rng.integers(1, n - m - 1)) if case["where"] == "burst" else rng.choice(n - 2, m, replace=False) + 1
            big = 10.0 ** (case["big"] if kind == "con" else 1) * d["size"]
            sg = lambda: np.sign(rng.standard_normal(m)) * rng.uniform(1, 3, m) if case["where"] == "scatter" else 1.0
            d["u"] = d["u"].copy()
            d["u"][i] += big * sg()
            clean["u"] = clean["u"].copy()
            clean["u"][i] = np.nan
            if two:
                d["v"] = d["v"].copy()
                d["v"][i] += big * sg()
        o = tc.solve_opts(dict(case, method="ols"), d["names"])
        inf = tc.make_infer(rng, case, d["names"], two)
        if inf:
            o["infer"] = inf
        for key in "tuv":
            d[key] = tc.dress(d[key], case["carry"])
        coef = utide.solve(d["t"], d["u"], d["v"], lat=d["lat"], method="robust", robust_kw=kwargs(case), **o)
        w = np.asarray(coef["weights"], float)
        good = np.isfinite(d["u"]) if d["v"] is None else np.isfinite(d["u"]) & np.isfinite(d["v"])
        ev.update(nw=int(w.size), retained=int(good.sum()), wmin=core.quant(w.min(), 1e6), wmax=core.quant(w.max() - 1, 1e9) + 10**6)
        if kind == "opt":
            ev["dirs"] = directions(utide, d, coef, inf, two)
        else:
            ols = utide.solve(clean["t"], clean["u"], clean["v"], lat=d["lat"], **o)
            sig = noise * np.sqrt(2 / good.sum())
            ev.update(r=tc.observe(coef, d["size"], d["days"]), o=tc.observe(ols, d["size"], d["days"]), tol=core.quant(8 * sig if kind == "con" else 6 * sig, 1e8) + 2000)
    except Exception as e:
        import traceback
        ev.update(ok=False, err=repr(e)[:200], tb=traceback.format_exc()[-700:])
    return ev


def run(ck):
    ck.mc("MC_Robust", "MC_Robust.cfg")
    for b, inv in (("nextweights", "Consistent"), ("centred", "Supported"), ("halfrevert", "Consistent")):
        ck.mc("MC_Robust", f"MC_Robust_{b}.cfg", expect_violation=inv)
    rng = np.random.default_rng(ck.seed)
    cases = ck.gen("Gen_Robust", "Gen_Robust.cfg", num=ck.scale(700, 9000), depth=60)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    can = []
    for e in evs[::20]:
        if not e["ok"]:
            continue
        can.append(dict(e, nw=e["nw"] + 1))
        can.append(dict(e, wmax=10**6 + 5))
        if e["k"] == "opt":
            can.append(dict(e, dirs=[dict(e["dirs"][0], sp=e["dirs"][0]["sp"] + 3000)] + e["dirs"][1:]))
        else:
            can.append(dict(e, r=dict(e["r"], mean=[x + 3 * e["tol"] for x in e["o"]["mean"]])))
    for b in ck.judge("Trace_Robust", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::130]:
        ck.sample(dict(case=c, weights=[e["wmin"], e["wmax"]]))
    ck.extra["weight_functions"] = sorted({c["wf"] for c in cases})
