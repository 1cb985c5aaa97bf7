"""C01: predictions follow the tidal equation.  TLC evaluates the equation (Tide.tla) for every recorded prediction."""
import numpy as np
import core, tidecommon as tc
from core import quant

MODES = [(p, n) for p in ("Greenwich", "linear_time", "raw") for n in ("exact", "linear_time", "none")]


def one_case(case):
    """All constituents, one mode and context: unit-amplitude predictions."""
    import utide
    rng = np.random.default_rng(case["seed"])
    ph, nod = case["ph"], case["nod"]
    evs = []
    try:
        coef = tc.template(utide, tc.NAMES, case["t0"], case["lat"] / 1e4 if case["lat"] or case["seed"] % 2 else -0.0, ph, nod, trend=False)
        reft = abs(coef.aux.reftime - tc.inst(case["t0"])) < 1e-9
    except Exception as e:
        return [dict(k="one", ok=False, err=repr(e), c=1, ph=ph, nod=nod, t0=case["t0"], lat=case["lat"], t=[], re=[], im=[])]
    coef["mean"] = 0.0
    names = list(coef["name"])
    for c, name in enumerate(tc.NAMES):
        if case["cs"] is not None and c not in case["cs"]:
            continue
        ts = []
        for _ in range(case["nt"]):
            far = 400 if rng.random() < 0.7 else 40000
            ts.append(tc.tick(case["t0"][0] + int(rng.integers(-far, far + 1)), int(rng.integers(0, 1024))))
        if tc.TAB[c]["compound"]:
            # the published value of half-integral compounds is specified away from 1900 only
            ts = [t for t in ts if abs(t[0]) > 301] or [case["t0"]]
        ev = dict(k="one", c=c + 1, ph=ph, nod=nod, t0=case["t0"], lat=case["lat"], t=ts, ok=bool(reft), re=[], im=[])
        try:
            tt = np.array([tc.inst(t) for t in ts])
            coef["A"] = np.zeros(len(names))
            coef["A"][names.index(name)] = 1.0
            for key, g in (("re", 0.0), ("im", 90.0)):
                coef["g"] = np.full(len(names), g)
                h = utide.reconstruct(tt, coef, epoch="python", constit=[name], verbose=False).h
                ev[key] = core.quants(h, 1e8)
        except Exception as e:
            ev.update(ok=False, err=repr(e))
        evs.append(ev)
    return evs


def sum_case(case):
    import utide
    rng = np.random.default_rng(case["seed"])
    ph, nod, two = case["ph"], case["nod"], case["two"]
    usable = [n for n in tc.NAMES if n != "M7"]
    names = [usable[i] for i in rng.choice(len(usable), int(rng.integers(1, 7)), replace=False)]
    trend = bool(rng.random() < 0.6)
    t0 = case["t0"]
    span = int(rng.choice([3, 400, 20000]))
    ts = [tc.tick(t0[0] + int(rng.integers(-span, span + 1)), int(rng.integers(0, 1024))) for _ in range(case["nt"])]
    ev = dict(k="ell" if two else "sum", ph=ph, nod=nod, t0=t0, lat=case["lat"], t=ts, ok=True, cs=[], names=names)
    amp = lambda lo=0.0: int(rng.integers(int(lo * 1e8), int(1e8)))
    slope = lambda: int(rng.integers(-10000, 10001)) * (10 if span <= 400 else 1) if trend else 0
    deg = lambda m: int(rng.choice([0, 90000, m - 1])) if rng.random() < 0.15 else int(rng.integers(0, m))
    try:
        coef = tc.template(utide, names, t0, case["lat"] / 1e4, ph, nod, trend=trend, twodim=two)
        assert abs(coef.aux.reftime - tc.inst(t0)) < 1e-9, "reference time"
        n = list(coef["name"])
        if two:
            for p in ("Lsmaj", "Lsmin", "theta", "g"):
                coef[p] = np.zeros(len(n))
            for nm in names:
                L = amp()
                d = dict(c=tc.IDX[nm] + 1, L=L, l=int(rng.integers(-L, L + 1)), th=deg(180000), g=deg(360000))
                ev["cs"].append(d)
                i = n.index(nm)
                coef["Lsmaj"][i], coef["Lsmin"][i], coef["theta"][i], coef["g"][i] = L / 1e8, d["l"] / 1e8, d["th"] / 1e3, d["g"] / 1e3
            ev.update(um=amp(-1), vm=amp(-1), us=slope(), vs=slope())
            coef["umean"], coef["vmean"] = ev["um"] / 1e8, ev["vm"] / 1e8
            if trend:
                coef["uslope"], coef["vslope"] = ev["us"] / 1e8, ev["vs"] / 1e8
        else:
            for p in ("A", "g"):
                coef[p] = np.zeros(len(n))
            for nm in names:
                d = dict(c=tc.IDX[nm] + 1, A=amp(), g=deg(360000))
                ev["cs"].append(d)
                i = n.index(nm)
                coef["A"][i], coef["g"][i] = d["A"] / 1e8, d["g"] / 1e3
            ev.update(mean=amp(-1), slope=slope())
            coef["mean"] = ev["mean"] / 1e8
            if trend:
                coef["slope"] = ev["slope"] / 1e8
        r = utide.reconstruct(np.array([tc.inst(t) for t in ts]), coef, epoch="python", min_SNR=0, verbose=False)
        if two:
            ev["u"], ev["v"] = core.quants(r.u, 1e8), core.quants(r.v, 1e8)
        else:
            ev["h"] = core.quants(r.h, 1e8)
    except Exception as e:
        ev.update(ok=False, err=repr(e))
    return ev


def run(ck):
    ck.mc("MC_Tide", "MC_Tide.cfg" if ck.quick else "MC_Tide_deep.cfg", workers=8)
    rng = np.random.default_rng(ck.seed)
    ctx = lambda: dict(t0=tc.tick(tc.random_day(rng), int(rng.integers(0, 1024))), lat=tc.random_lat4(rng), seed=int(rng.integers(2**31)))
    ones = []
    for z in (0, 1):                                        # the equator, also when written as -0.0
        ones.append(dict(cs=None, ph="Greenwich", nod=("exact", "linear_time")[z], nt=1, **dict(ctx(), lat=0, seed=2 * int(rng.integers(2**30)))))
    for ph, nod in MODES:
        for k in range(ck.scale(2, 16)):
            c = dict(ph=ph, nod=nod, nt=2, **ctx())
            for part in range(4):
                ones.append(dict(c, cs=[i for i in range(len(tc.NAMES)) if i % 4 == part]))
    sums = [dict(ph=MODES[i % 9][0], nod=MODES[i % 9][1], two=bool((i // 9) % 2), nt=4, **ctx()) for i in range(ck.scale(270, 2700))]
    evs = [e for r in core.pmap(one_case, ones) for e in r] + core.pmap(sum_case, sums)
    can = []
    for e in evs[:: max(1, len(evs) // 12)]:
        e = dict(e)
        key = {"one": "re", "sum": "h", "ell": "v"}[e["k"]]
        if e["ok"] and e[key] and (e["k"] != "one" or tc.NAMES[e["c"] - 1] != "M7"):
            e[key] = [x + (5000 if x < 0 else -5000) for x in e[key]]
            can.append(e)
    bad = ck.judge("Trace_Tide", evs, canary=can)
    for b in bad:
        e = evs[b["i"]]
        if b["why"] == ["half-as-is"] and ck.known_finding(
                "M7-half-cycle", "M7 (3.5 x M2): the argument is 3.5 times the reduced argument of M2, so it jumps by half a cycle whenever "
                "M2's wraps (phase Greenwich), and may be half a cycle off (phase linear_time)"):
            continue
        what = tc.NAMES[e["c"] - 1] if e["k"] == "one" else ",".join(e["names"])
        ck.violation(f"{'/'.join(b['why'])}: {what} phase={e['ph']} nodal={e['nod']} lat={e['lat'] / 1e4} t0={e['t0']} {e.get('err', '')}", e)
    for e in evs[::max(1, len(evs) // 5)]:
        ck.sample(e)
    ck.extra["constituents"] = len({e["c"] for e in evs if e["k"] == "one"})
    ck.extra["instants"] = sum(len(e["t"]) for e in evs)
    ck.assumptions += ["TLA+ fixed-point evaluation is accurate to 4e-6 (measured against the pinned code)",
                       "instants are multiples of 1/1024 day, latitudes of 1e-4 degree"]
