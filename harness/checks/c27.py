"""C27: an analysis and its prediction as a whole (UTide.tla): what every stage must produce follows from the request and the marks of
the samples alone, and analysing is a projection: the prediction analysed again gives the same solution, the residual nothing."""
import contextlib, io
import numpy as np
import core, tidecommon as tc, requests as rq, refmodel as rm
from c04 import pattern, rep_data, rep_time
from c06 import spoil
from c07 import DF10
from c09 import NOISE
from c12 import threshold


def grid(rng, kind, length, auto):
    n = int(rng.integers(*{"short": (240, 330), "medium": (400, 620), "long": (1010, 1500)}[length]))
    dt = int(rng.choice([16, 21] if auto else [16, 21, 32, 43, 48]))
    tick = np.arange(n) * dt
    if kind == "jitter":
        tick = tick + rng.integers(-5, 6, n)
        tick -= tick[0]
    elif kind == "hole":
        tick[n // 2:] += dt * int(rng.integers(1, 90))
    elif kind == "late":
        a = int(rng.integers(n // 2, n - 2))
        tick[a:] = tick[a - 1] + np.arange(1, n - a + 1) * (dt - int(rng.integers(1, 9)))
    elif kind == "one":
        tick[int(rng.integers(1, n - 1))] += int(rng.choice([-1, 1])) * int(rng.integers(2, 9))
    return n, tick


def one(case):
    import utide
    rng = np.random.default_rng(case["seed"])
    two = case["two"]
    ev = dict(cls=["result"], err="", ok=True, id=case["id"], req={k: case[k] for k in ("two", "trend", "conf", "order", "method")}, faults=[], ss=[], auto=case["constit"] == "auto",
              list=[], refs=[], infs=[], ratio=[], offset=[], rm=core.flt(1), rows=[], want=[], nw=0, ref2=0, nR=0, nI=0, nNR=0, keys=[], given=case["given"] != "no", wanted=[],
              minSNR=[0, 0], minPE=[0, 0], full=[], base=[], single=[], obs=[], again=[], resid=[])
    n, tick = grid(rng, case["grid"], case["length"], ev["auto"])
    era = "old" if case["era"] == "remote" and (case["tform"] in ("series", "dindex", "dt64", "mdt64") or case["rform"] in ("series", "dt64")) else case["era"]
    day0 = int({"modern": rng.integers(715000, 745000), "old": rng.integers(650000, 795000), "remote": rng.choice([200000, 400000, 1100000]) + rng.integers(0, 9000)}[era])
    days = day0 + tick / 1024
    mt, mu = pattern(rng, case["tpat"], n), pattern(rng, case["upat"], n)
    mv = pattern(rng, case["vpat"], n, mu) if two else np.zeros(n, bool)
    if (~(mt | mu | mv)).sum() < 0.5 * n and case["upat"] != "alternate" or (~(mt | mu | mv)).sum() < 0.3 * n:
        mu[:], mv[:] = False, False
    # the coloured spectrum reaches up to the Nyquist frequency of the mean sampling rate
    nyq = lambda: 0.5 * (~(mt | mu | mv)).sum() / (24 * np.ptp(days))
    if ev["auto"] and nyq() < 0.36:
        mt[:], mu[:], mv[:] = False, False, False
    kept = ~(mt | mu | mv)
    span = np.ptp(days[kept])
    # the names: those listed are resolved by the record
    size = {"unit": 1.0, "tiny": 1e-6, "huge": 3e5}[case["size"]]
    names = tc.pick_separated(rng, int(rng.integers(2, 9)), span, 60, day0, factor=1.5)
    names = [x for x in names if rm.freq(tc.IDX[x], day0) < 0.9 * nyq()] or ["M2"]
    if "M2" not in names and rng.random() < 0.7:
        names = [x for x in names if abs(rm.freq(tc.IDX[x], day0) - 0.0805) * span * 24 > 1.5] + ["M2"]
    A, g = size * rng.uniform(0.2, 1, len(names)), rng.uniform(0, 360, len(names))
    lat = tc.pick_lat(rng, case["lat"])
    mk = lambda s: s * (rm.predict_scalar(names, A / s, g, 0.4, 0.01, days, day0, lat, "Greenwich", "exact") + NOISE[case["noise"]] * rng.standard_normal(n))
    u = mk(size)
    v = mk(size)[::-1].copy() if two else None
    o = tc.solve_opts(case, names)
    del o["epoch"]
    for _ in range(99):
        Rm = round(float(rng.choice([0.8, 1.0, 1.0, rng.uniform(0.8, 2.5)])), 3)
        if all(np.abs(DF10 * s * 24 / 1e10 / Rm - 1).min() > 1e-5 for s in (span, np.ptp(days[~mt]), np.ptp(days))):
            break
    ev["rm"] = core.flt(Rm)
    if ev["auto"]:
        o["Rayleigh_min"] = Rm
        names = None
    else:
        ev["list"] = names
        o["constit"] = {"list": list, "tuple": tuple, "array": np.array}[case["constit"]](names)
    inf = tc.make_infer(rng, case, names or ["M2"], two)
    if inf and names is None and span < 35:
        inf["inferred_names"], inf["reference_names"] = ["LDA2"], ["M2"]
        inf["amp_ratios"], inf["phase_offsets"] = inf["amp_ratios"][:1 + two], inf["phase_offsets"][:1 + two]
    if inf:
        k = len(inf["inferred_names"])
        ev["refs"], ev["infs"] = list(inf["reference_names"]), list(inf["inferred_names"])
        for j in range(k):
            ev["ratio"].append([core.quant(inf["amp_ratios"][j + c * k], 1e8) for c in range(1 + two)])
            ev["offset"].append([core.quant(inf["phase_offsets"][j + c * k], 1e6) for c in range(1 + two)])
        o["infer"] = utide.utilities.Bunch(inf) if case["iform"] == "Bunch" else inf
    order = case["order"]
    if order in ("list", "tuple", "array") and names is not None:
        ev["want"] = [str(x) for x in rng.permutation([x for x in names if x not in ev["infs"]] + [x for x in ev["refs"] if x not in names] + ev["infs"])] if not inf else \
            [str(x) for x in rng.permutation(sorted(set(names) | set(ev["refs"]) | set(ev["infs"])))]
        o["order_constit"] = {"list": list, "tuple": tuple, "array": np.array}[order](ev["want"])
        ev["req"]["order"] = "list"
    elif order in ("list", "tuple", "array"):
        o["order_constit"] = ev["req"]["order"] = "frequency"
    elif order != "default":
        o["order_constit"] = order
    ev["ss"] = [[int(tick[i]), int(not mt[i]), int(not mu[i]), int(not mv[i])] for i in range(n)]
    t, ep = rep_time(days.copy(), mt, case["tform"], rng)
    args = [t, rep_data(u, mu, case["uform"], rng)] + ([rep_data(v, mv, case["vform"], rng)] if two else [])
    kw = dict(o, lat=lat, epoch=ep)
    if case["fault"] and spoil(rng, case["fault"], case["which"], args, kw, dict(names=names or ["M2", "K1"]), two):
        ev["faults"] = [case["fault"]]
    np.random.seed(case["seed"])
    try:
        coef = utide.solve(*args, **kw)
    except core.CaseTimeout:
        raise
    except Exception as e:
        ev.update(cls=[c.__name__ for c in type(e).__mro__], err=repr(e)[:200])
        return ev
    if ev["faults"]:
        return ev
    try:
        ks = ("Lsmaj", "Lsmin") if two else ("A",)
        ci = case["conf"] != "none"
        big = max(size, max(float(np.abs(coef[k]).max()) for k in ks))
        D = days[-1] - days[0]
        ev["nw"] = len(coef["weights"])
        ev["ref2"] = core.quant(2 * (coef["aux"]["reftime"] - day0), 1024)
        for k in ("nR", "nI", "nNR"):
            ev[k] = int(coef[k])
        ev["keys"] = [str(k) for k in coef]
        E = sum(np.asarray(coef[k], float) ** 2 for k in ks)
        PE = np.asarray(coef["PE"], float) if "PE" in coef else 100 * E / E.sum()
        SNR = np.asarray(coef["SNR"], float) if ci else np.zeros(len(E))
        got = [str(x) for x in coef["name"]]
        for i, nm in enumerate(got):
            ev["rows"].append(dict(n=nm, f=core.flt(coef["aux"]["frq"][i]), amp=[core.flt(coef[k][i]) for k in ks], ci=[core.flt(coef[k + "_ci"][i]) for k in ks if ci],
                                   pe=core.flt(PE[i]), snr=core.flt(SNR[i])))
        ev["obs"] = tc.observe(coef, big, D)
        # a prediction with a filter
        f = {}
        mS = threshold(case["snr"], SNR, rng, None, False) if ci else {"default": None, "zero": 0}.get(case["snr"], 5.0)
        mP = threshold(case["pe"], PE, rng, None, False)
        if mS is not None:
            f["min_SNR"] = mS
        if mP is not None:
            f["min_PE"] = mP
        ev["minSNR"], ev["minPE"] = core.flt(f.get("min_SNR", 2)), core.flt(f.get("min_PE", 0))
        if any(th and np.any(np.abs(x - th) < 1e-4 * th) for th, x in ((f.get("min_SNR", 2), SNR), (f.get("min_PE", 0), PE))):
            f, ev["minSNR"], ev["minPE"] = dict(min_SNR=0, min_PE=0), core.flt(0), core.flt(0)
        if ev["given"]:
            w = [got[i] for i in rng.permutation(len(got))[:int(rng.integers(1, len(got) + 1))]]
            if case["given"] == "foreign":
                w = w[:1] + [x for x in ("ETA2", "M6", "SA") if x not in got] + w[1:]
            ev["wanted"] = w
            f["constit"] = {"tuple": tuple, "array": np.array}.get(case["given"], list)(w)
        pick = np.sort(rng.choice(n, 7, replace=False))
        rt, rep = rep_time(days[pick].copy(), np.zeros(7, bool), case["rform"], rng)
        q = lambda r: core.quants(np.concatenate([r.u, r.v]) if two else r.h, 1e7 / big)
        rec = lambda **k: q(utide.reconstruct(rt, coef, epoch=rep, verbose=False, **k))
        ev["base"], ev["single"], ev["full"] = rec(constit=[]), [rec(constit=[x]) for x in got], rec(**f)
        # once more
        if case["infer"] != "approx":
            p = utide.reconstruct(days, coef, epoch="python", verbose=False, min_SNR=0, min_PE=0)
            P = [p.u, p.v] if two else [p.h]
            M = [mu, mv]
            kw2 = dict(kw, epoch=ep)
            tt = rep_time(days.copy(), mt, case["tform"], rng)[0]
            c2 = utide.solve(tt, *[rep_data(np.asarray(x), m, fm, rng) for x, m, fm in zip(P, M, (case["uform"], case["vform"]))], **kw2)
            ev["again"] = [tc.observe(c2, big, D)]
            if case["method"] == "ols":
                c3 = utide.solve(tt, *[rep_data(y - np.asarray(x), m, fm, rng) for y, x, m, fm in zip((u, v), P, M, (case["uform"], case["vform"]))], **kw2)
                ev["resid"] = [tc.observe(c3, big, D)]
    except core.CaseTimeout:
        raise
    except Exception as e:
        import traceback
        ev.update(ok=False, err=repr(e)[:200], tb=traceback.format_exc()[-600:])
    return ev


def run(ck):
    ck.mc("MC_UTide", "MC_UTide.cfg", workers=8)
    for n, inv in (("rawspan", "AsComposed"), ("keepsref", "AsComposed"), ("untied", "Tied"), ("halforder", "Attached"), ("filteralways", "Filtered")):
        ck.mc("MC_UTide", f"MC_UTide_{n}.cfg", expect_violation=inv)
    rng = np.random.default_rng(ck.seed)
    rm.bind(ck, rng, ck.scale(40, 200))
    cases = ck.gen("Gen_UTide", "Gen_UTide.cfg", num=ck.scale(1300, 16000), depth=50)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    can = []
    for e in evs[::60]:
        if e["ok"] and e["rows"]:
            can += [dict(e, nw=e["nw"] + 1), dict(e, full=[x + 5000 for x in e["full"]]), dict(e, rows=e["rows"][:-1] + e["rows"][:1])]
            if e["again"]:
                can.append(dict(e, again=[dict(e["again"][0], mean=[x + 5000 for x in e["again"][0]["mean"]])]))
        elif e["faults"]:
            can.append(dict(e, cls=["result"]))
    for b in ck.judge("Trace_UTide", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::220]:
        ck.sample(dict(case=c, names=[r["n"] for r in e["rows"]], outcome=e["cls"][0], analysed_again=bool(e["again"])))
    ck.extra["refused"] = sum(bool(e["faults"]) for e in evs)
    ck.extra["analysed_again"] = sum(bool(e["again"]) for e in evs)
    ck.extra["residuals"] = sum(bool(e["resid"]) for e in evs)
    ck.assumptions += ["approximate inference is excluded from the second analysis (it is not a least-squares fit)",
                       "thresholds and separations are at least 1e-5 (relative) away from equality; C07 and C12 decide the ties"]
