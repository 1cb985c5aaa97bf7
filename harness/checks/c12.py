"""C12: which constituents a reconstruction includes (Recon.tla)."""
import numpy as np
import core, tidecommon as tc
from c09 import NOISE


def make_solution(utide, rng, case, seed):
    case = dict(case, noise=NOISE[case.get("noise", 1)], span=30)
    d = tc.record(rng, case)
    o = tc.solve_opts(case, d["names"])
    inf = tc.make_infer(rng, case, d["names"], case["two"])
    if inf:
        o["infer"] = inf
    if case.get("order") == "frequency":
        o["order_constit"] = "frequency"
    elif case.get("order") == "list":
        o["order_constit"] = [str(x) for x in rng.permutation(d["names"] + (inf["inferred_names"] if inf else []))]
    np.random.seed(seed)
    return d, utide.solve(d["t"], d["u"], d["v"], lat=d["lat"], **o)


def craft(coef, two, rng, hasci):
    """Overwrite a solution's parameters by powers of two, so that PE and SNR are exact in floating point."""
    n = len(coef["name"])
    E = np.ones(n) * 4.0
    # energies 16,4,4,4,4 | 4,4,4,4 | 4,4 | 4 | ... padded with zeros so that the sum is a power of two
    shape = {1: [4], 2: [4, 4], 3: [8, 4, 4], 4: [4, 4, 4, 4]}.get(n, [16, 4, 4, 4, 4] + [0] * (n - 5))
    E = np.array([float(x) for x in shape])[rng.permutation(n)]
    E = np.where(E == 8, 16, E) if n == 3 else E
    if n == 3:
        E = np.array([16.0, 16.0, 0.0])[rng.permutation(3)]
    A = np.sqrt(E)
    k = rng.integers(-3, 2, n)
    ci = 1.96 * 2.0 ** k
    if two:
        coef["Lsmaj"], coef["Lsmin"] = A.copy(), np.zeros(n)
        if hasci:
            coef["Lsmaj_ci"], coef["Lsmin_ci"] = ci, np.zeros(n)
    else:
        coef["A"] = A.copy()
        if hasci:
            coef["A_ci"] = ci
    PE = 100 * E / E.sum()
    SNR = E / (2.0 ** k) ** 2
    if "PE" in coef:
        coef["PE"] = PE
    if hasci:
        coef["SNR"] = SNR
    if "diagn" in coef:
        i = PE.argsort()[::-1]
        coef["diagn"] = {"name": coef["name"][i], "PE": PE[i], "SNR": SNR[i]}
    return PE, SNR


def threshold(kind, vals, rng, default, exact):
    fin = np.sort(vals[np.isfinite(vals)])
    if kind == "default":
        return default
    if kind == "zero":
        return 0
    if kind == "huge":
        return 1e12
    if kind == "equal":
        if exact:
            return float(rng.choice(vals))
        kind = "mid"
    lo = {"low": fin[0], "mid": fin[len(fin) // 2], "high": fin[-1]}[kind]
    # strictly between values
    up = fin[fin > lo * 1.001]
    return float(np.sqrt(lo * up[0])) if len(up) and lo > 0 else float(lo * 1.5 + 1e-12)


def one(case):
    import utide
    rng = np.random.default_rng(case["seed"])
    two = case["two"]
    ev = dict(k="inc", ok=True, err="", id=case["id"], rows=[], given=case["given"] != "no", wanted=[], exactPE=case["sol"] == "crafted",
              ci=case["conf"] != "none", minSNR=[0, 0], minPE=[0, 0], full=[], base=[], single=[])
    try:
        d, coef = make_solution(utide, rng, case, case["seed"])
        names = [str(x) for x in coef["name"]]
        ks = ("Lsmaj", "Lsmin") if two else ("A",)
        if case["sol"] == "crafted":
            PE, SNR = craft(coef, two, rng, ev["ci"])
            size = 4.0
            for key in ("mean", "slope", "umean", "vmean", "uslope", "vslope"):
                if key in coef:
                    coef[key] = coef[key] / d["size"]
        else:
            E = sum(np.asarray(coef[x]) ** 2 for x in ks)
            PE = 100 * E / E.sum()
            SNR = E / sum((np.asarray(coef[x + "_ci"]) / 1.96) ** 2 for x in ks) if ev["ci"] else np.full(len(names), np.inf)
            size = d["size"]
        for i, n in enumerate(names):
            ev["rows"].append(dict(n=n, amp=[core.flt(coef[x][i]) for x in ks], ci=[core.flt(coef[x + "_ci"][i]) for x in ks if ev["ci"]],
                                   pe=core.flt(PE[i]), snr=core.flt(SNR[i]) if ev["ci"] else [0, 0]))
        kw = {}
        mS = threshold(case["snr"], SNR, rng, None, ev["exactPE"]) if ev["ci"] else {"default": None, "zero": 0}.get(case["snr"], 5.0)
        mP = threshold(case["pe"], PE, rng, None, ev["exactPE"])
        if mS is not None:
            kw["min_SNR"] = mS
        if mP is not None:
            kw["min_PE"] = mP
        ev["minSNR"], ev["minPE"] = core.flt(kw.get("min_SNR", 2)), core.flt(kw.get("min_PE", 0))
        # thresholds of a fitted solution within rounding of a value decide nothing
        if not ev["exactPE"] and not ev["given"]:
            for th, vals in ((kw.get("min_SNR", 2), SNR), (kw.get("min_PE", 0), PE)):
                if th and np.any(np.abs(vals - th) < 1e-4 * th):
                    return None
        if ev["given"]:
            k = int(rng.integers(1, len(names) + 1))
            w = [names[i] for i in rng.permutation(len(names))[:k]]
            if case["given"] == "empty":
                w = []
            if case["given"] == "foreign":
                w = w[:1] + [n for n in ("ETA2", "M6", "2SM6", "SA") if n not in names] + w[1:]
            ev["wanted"] = w
            kw["constit"] = {"tuple": tuple, "array": np.array, "set": set}.get(case["given"], list)(w)
        tt = np.sort(rng.choice(d["t"], 8, replace=False))
        q = lambda r: core.quants(np.concatenate([r.u, r.v]) if two else r.h, 2e7 / size)
        rec = lambda **k: q(utide.reconstruct(tt, coef, epoch="python", verbose=False, **k))
        ev["base"] = rec(constit=[])
        ev["single"] = [rec(constit=[n]) for n in names]
        ev["full"] = rec(**kw)
    except Exception as e:
        ev.update(ok=False, err=repr(e)[:200])
    return ev


def run(ck):
    ck.mc("MC_Recon", "MC_Recon.cfg", workers=8)
    rng = np.random.default_rng(ck.seed)
    cases = ck.gen("Gen_Recon", "Gen_Recon_Inc.cfg", num=ck.scale(900, 12000), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    cases, evs = zip(*[(c, e) for c, e in zip(cases, evs) if e is not None])
    can = [dict(e, full=[x + 300 for x in e["full"]]) for e in evs[::50] if e["ok"]]
    for b in ck.judge("Trace_Recon", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::180]:
        ck.sample(dict(case=c, minSNR=e["minSNR"], minPE=e["minPE"], rows=[(r["n"], r["pe"], r["snr"]) for r in e["rows"]]))
