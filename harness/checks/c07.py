"""C07: selection of constituents (Select.tla)."""
import numpy as np
import core, tidecommon as tc

DF10 = np.array([c["df10"] or 0 for c in tc.TAB])


def limbs(f):
    """A frequency in [0, 1) as the four base-10^4 digits of its 16-digit decimal fraction."""
    from fractions import Fraction
    x = float(f)
    if not 0 <= x < 1:
        return [9999] * 4
    k = int(round(Fraction(x) * 10**16))
    return [k // 10 ** (4 * i) % 10**4 for i in range(4)]


def tie_of(rng, lor):
    """(index, Rayleigh_min) for which the criterion is met with exact equality however it is evaluated."""
    import utide
    df = np.asarray(utide.ut_constants.const.df, float)
    for i in rng.permutation(len(df)):
        d = float(df[i])
        if not d > 0 or not np.isfinite(d) or (df[DF10 == DF10[i]] < d).any():      # equal to 10 digits only
            continue
        r = d * 24 * lor
        if r / (24 * lor) == d and d * 24 * lor == r and r / 24 / lor == d and d * lor * 24 == r and r / lor / 24 == d and lor * 24 == 24 * lor:
            if 0.05 < r < 20:
                return int(i), r
    return None, None


def one(case):
    import utide
    rng = np.random.default_rng(case["seed"])
    two = case["two"]
    auto = case["constit"] == "auto"
    ev = dict(ok=True, err="", id=case["id"], auto=auto, thr=0, tie=0, list=[], refs=[], infs=[], names=[], frq=[], nR=0, nNR=0, nI=0, lens=[], t0=[0, 0])
    try:
        n = int(rng.integers(150, 420))
        if case["span"] == "tie":
            S = 1024 * 2 ** int(rng.integers(1, 9))
        else:
            lo, hi = {"short": (0.6, 10), "medium": (10, 40), "long": (40, 200), "year": (180, 420)}[case["span"]]
            S = int(1024 * np.exp(rng.uniform(np.log(lo), np.log(hi))))
        if case["samp"] == "even":
            div = [k for k in range(100, 500) if S % k == 0]
            k = int(rng.choice(div)) if div else n
            S = S // k * k
            tick = np.arange(k + 1) * (S // k)
        else:
            tick = np.unique(np.concatenate([[0, S], rng.integers(1, S, n)]))
            if case["samp"] == "gap":
                tick = tick[(tick < S // 3) | (tick > S // 2)]
        S = int(tick[-1])
        S += S % 2 and 0
        day = int({"modern": rng.integers(20000, 52000), "old": rng.integers(-60000, 15000), "remote": rng.choice([-500000, 500000]) + rng.integers(0, 9000)}[case["era"]])
        t = tc.inst([day, 0]) + tick / 1024
        lor = S / 1024
        tie, rmin = (tie_of(rng, lor) if case["span"] == "tie" and auto else (None, None))
        if tie is None:
            for _ in range(50):
                rmin = {"one": 1, "low": 0.5, "high": 2.0, "random": float(np.exp(rng.uniform(-1.5, 1.0)))}[case["rmin"]]
                thr = rmin / (24 * lor) * 1e10
                if np.abs(DF10 - thr).min() > 3:
                    break
                case = dict(case, rmin="random")
        else:
            thr = DF10[tie]
            ev["tie"] = 1
        ev["thr"] = int(min(round(thr), 10**9))
        o = dict(conf_int="none", trend=case["trend"], phase=case["phase"], nodal=tc.NODAL[case["nodal"]], epoch="python", verbose=False, Rayleigh_min=rmin,
                 order_constit=None if case["order"] == "default" else "frequency")
        names = [tc.NAMES[i] for i in rng.permutation(len(tc.NAMES))[:int(rng.integers(1, 25))]]
        if not auto:
            ev["list"] = names
            o["constit"] = names
        if case["infer"] == "natural":
            inf = tc.make_infer(rng, dict(infer=str(rng.choice(["exact", "approx"]))), ["K1", "S2", "N2", "O1", "M2", "Q1"], two)
        elif case["infer"] == "wild":
            p = [tc.NAMES[i] for i in rng.permutation(len(tc.NAMES))]
            k = int(rng.integers(1, 7))
            infs = p[:k]
            refs = [str(x) for x in rng.choice(p[k:k + int(rng.integers(1, 5))], k)]
            if not auto and rng.random() < 0.5:        # listed as well
                names[:0] = [x for x in infs[:2] + refs[:1] if x not in names]
                o["constit"] = ev["list"] = list(names)
            m = 2 * k if two else k
            inf = dict(inferred_names=infs, reference_names=refs, amp_ratios=[0.2] * m, phase_offsets=[10.0] * m, approximate=bool(rng.random() < 0.3))
        else:
            inf = None
        if inf:
            o["infer"] = inf
            ev["refs"], ev["infs"] = list(inf["reference_names"]), list(inf["inferred_names"])
        if auto and not inf and not (DF10 >= ev["thr"]).any():
            return None
        u = rng.standard_normal(len(t))
        coef = utide.solve(t, u, u[::-1].copy() if two else None, lat=round(float(rng.uniform(-80, 80)), 1), **o)
        ref2 = tick[0] + tick[-1]
        ev["t0"] = tc.tick(day, int(ref2) // 2)
        ev["names"] = [str(x) for x in coef["name"]]
        ev["frq"] = [limbs(x) for x in coef["aux"]["frq"]]
        ev["nR"], ev["nNR"], ev["nI"] = int(coef["nR"]), int(coef["nNR"]), int(coef["nI"])
        ev["lens"] = [len(coef[k]) for k in (("Lsmaj", "Lsmin", "theta", "g") if two else ("A", "g"))] + [len(coef["aux"]["lind"])]
    except Exception as e:
        ev.update(ok=False, err=repr(e)[:200])
    return ev


def run(ck):
    ck.mc("MC_Select", "MC_Select.cfg", workers=8)
    for i, inv in ((1, "Exactly"), (2, "Once|Counts"), (3, "Once|Counts")):
        ck.mc("MC_Select", f"MC_Select_mut{i}.cfg", expect_violation=inv)
    rng = np.random.default_rng(ck.seed)
    cases = ck.gen("Gen_Select", "Gen_Select.cfg", num=ck.scale(1200, 15000), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    cases, evs = zip(*[(c, e) for c, e in zip(cases, evs) if e is not None])
    can = []
    for e in evs[::60]:
        if e["ok"] and len(e["names"]) > 2:
            can += [dict(e, names=e["names"][:-1] + e["names"][:1]), dict(e, nR=e["nR"] + 1), dict(e, frq=[[(e["frq"][0][0] + 5000) % 10000, (e["frq"][0][1] + 3) % 10000] + e["frq"][0][2:]] + e["frq"][1:])]
    for b in ck.judge("Trace_Select", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::240]:
        ck.sample(dict(case=c, thr=e["thr"], tie=e["tie"], names=e["names"][:12], n=len(e["names"])))
    ck.extra["exact_ties"] = sum(e["tie"] for e in evs)
    ck.extra["constituents_selected"] = len({n for e in evs for n in e["names"]})
