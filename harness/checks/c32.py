"""C32: the robust iteration (Irls.tla: weight functions and the machine; Trace_Irls.tla follows it on recorded runs)."""
import numpy as np
import core

TUNE = dict(andrews=1.339, bisquare=4.685, cauchy=2.385, fair=1.4, huber=1.345, logistic=1.205, ols=1, talwar=2.795, welsch=2.985)
W = dict(andrews=lambda r: np.where(r < np.pi, np.sinc(r / np.pi), 0), bisquare=lambda r: np.where(r < 1, (1 - r * r) ** 2, 0), cauchy=lambda r: 1 / (1 + r * r),
         fair=lambda r: 1 / (1 + r), huber=lambda r: 1 / np.maximum(1, r), logistic=lambda r: np.where(r < 1e-7, 1, np.tanh(r) / np.maximum(r, 1e-300)), ols=lambda r: r * 0 + 1,
         talwar=lambda r: (r < 1) * 1.0, welsch=lambda r: np.exp(-r * r))
RUNS = (1, 2, 3, 4, 6, 50)


def pair(z):
    return [core.flt(np.real(z)), core.flt(np.imag(z))]


def pairs(z):
    return [pair(x) for x in np.asarray(z)]


def one(case):
    from utide.robustfit import robustfit
    rng = np.random.default_rng(case["seed"])
    n, p, wf = case["n"], case["p"], case["wf"]
    cx = case["complex"]
    size = dict(unit=1.0, tiny=1e-6, huge=1e5)[case["size"]]
    rnd = lambda *s: rng.standard_normal(s) + (1j * rng.standard_normal(s) if cx else 0)
    X = rnd(n, p)
    X[:, 0] = 1
    if case["odd"] == "lever":
        X[int(rng.integers(n)), -1] += 6
    b0 = rnd(p) * 3
    y = X @ b0 + 0.2 * rnd(n)
    k = dict(one=1, two=2, lever=1, offset=n // 4).get(case["odd"], 0)
    i = rng.choice(n, k, replace=False)
    y[i] += case["big"] * (1.0 if case["odd"] == "offset" else rnd(k))
    y = y * size
    ev = dict(err="", wf=wf, given=case["tune"] != "-", tune=core.flt(1), tol=core.flt(0.001), x=[], y=[], h=[], att=[], runs=[], id=case["id"])
    X1 = X
    if case["flat"] and p == 1:
        X1 = X[:, 0]                                        # one variable may be a plain vector
    kw = dict(weight_function=wf)
    tune = TUNE[wf]
    if case["tune"] != "-":
        kw["tune"] = tune = float(case["tune"])
        ev["tune"] = core.flt(tune)
    if case["tol"] != "-":
        kw["tol"] = float(case["tol"])
        ev["tol"] = core.flt(kw["tol"])
    try:
        h = np.real(np.einsum("ij,ji->i", X, np.linalg.pinv(X)))
        w = np.ones(n)
        for a in range(7):
            b = np.linalg.lstsq(w[:, None] * X, w * y, rcond=1e-13)[0]
            r = y - X @ b
            ev["att"].append(dict(w=core.flts(w), b=pairs(b), r=pairs(r)))
            s = np.median(np.abs(r)) / 0.6745
            w = W[wf](np.abs(r) / (tune * s * np.sqrt(1 - h)))
            if (w > 1e-3).sum() < p + 2 or np.linalg.cond((w[:, None] * X)[w > 0]) > 1e4:
                break
        ev.update(x=[pairs(q) for q in X], y=pairs(y), h=core.flts(h))
        for m in RUNS:
            run = dict(m=m, err="", w=[], b=[], it=0, rms=[0, 0], olsb=[], olsrms=[0, 0], lev=[])
            try:
                rf = robustfit(X1, y, **dict(kw, **({} if m == 50 else dict(maxit=m))))
                run.update(w=core.flts(rf.w), b=pairs(rf.b), it=int(rf.iterations), rms=core.flt(rf.rms_resid), olsb=pairs(rf.ols_b), olsrms=core.flt(rf.ols_rms_resid), lev=core.flts(rf.leverage))
            except Exception as e:
                run["err"] = repr(e)[:150]
            ev["runs"].append(run)
    except Exception as e:
        import traceback
        ev.update(err=repr(e)[:150], tb=traceback.format_exc()[-600:])
    return ev


def run(ck):
    rng = np.random.default_rng(ck.seed)
    ck.mc("MC_Irls", "MC_Irls.cfg", workers=1)
    cases = ck.gen("Gen_Irls", "Gen_Irls.cfg", num=ck.scale(500, 6000), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    can = []
    for e in evs[::20]:
        if e["err"] or e["wf"] == "ols" or any(r["err"] for r in e["runs"]):
            continue
        r = e["runs"]
        can.append(dict(e, runs=[dict(r[0], w=[[99000000, 0]] + r[0]["w"][1:])] + r[1:]))
        can.append(dict(e, runs=[dict(r[0], it=2)] + r[1:]))
        can.append(dict(e, runs=[dict(r[0], lev=[core.flt(0.9999)] + r[0]["lev"][1:])] + r[1:]))
        can.append(dict(e, runs=[dict(r[0], b=[r[0]["b"][0][::-1]] + r[0]["b"][1:])] + r[1:]) if e["x"][0][0] != 0 and r[0]["b"][0][0] != r[0]["b"][0][1] else dict(e, h=e["h"][1:] + [[0, 0]]))
    for b in ck.judge("Trace_Irls", evs, canary=can):
        if "oracle" in b["why"]:
            raise core.MachineryError(f"oracle of case {cases[b['i']]}")
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::100]:
        ck.sample(dict(case=c, iterations=[r["it"] for r in e["runs"]]))
    ck.extra["weight_functions"] = sorted({c["wf"] for c in cases})
