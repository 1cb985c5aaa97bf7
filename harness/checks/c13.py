"""C13: reconstruction is pointwise in time (Recon.tla, event kind pts)."""
import datetime
import numpy as np
import core, tidecommon as tc
from c12 import make_solution

EPOCH = "1999-02-03"


def one(case):
    import utide
    import pandas as pd
    rng = np.random.default_rng(case["seed"])
    two = case["two"]
    ev = dict(k="pts", ok=True, err="", id=case["id"], el=[], ref=[[], []] if two else [[]], out=[[], []] if two else [[]])
    try:
        d, coef = make_solution(utide, rng, dict(case, conf="none"), case["seed"])
        center = int(d["t0"])
        # instants at 1/1024 day: exact in every representation
        n = {"single": 1, "scalar": 1, "empty": 0, "many": 400, "dense": 3000, "bulk": int(rng.choice([12000, 12000, 24000, 70000]))}.get(case["shape"], int(rng.integers(2, 12)))
        spread = 60 if case["shape"] == "outside" else 15
        k = rng.integers(-spread * 1024, spread * 1024, n)
        if case["shape"] == "dense":
            k = np.arange(n) + int(rng.integers(-30, 30)) * 1024
        if case["shape"] == "outside":
            k = np.where(np.abs(k) < 20 * 1024, k + 40 * 1024, k)
        if case["shape"] == "close":                 # minutes apart, in any order
            k = int(rng.integers(-15, 15)) * 1024 + rng.integers(0, int(rng.choice([4, 10, 40])), n)
        tok = np.arange(n)
        if case["shape"] in ("sorted", "many", "reversed"):
            k = np.sort(k)
            if case["shape"] == "reversed":
                k = k[::-1]
        if case["shape"] == "duplicated" and n:
            tok = rng.integers(0, n, 3 * n)
        days = center + k / 1024                     # value per token
        vals = days[tok] if n else np.zeros(0)
        m = len(vals)
        form = case["form"]
        allowed = {"python": ["nan", "inf", "masked"], "matlab": ["nan", "inf", "masked"], "iso": ["nan", "inf", "masked"],
                   "dt64": ["nat", "masked"], "datetime": [], "list": ["nan", "inf"], "series": ["nat"]}[form]
        marks = ["ok"] * m
        if allowed and m and case["marks"] != "none":
            p = {"few": 0.25, "ends": 0.1, "most": 0.8, "all": 1.0}[case["marks"]]
            marks = [str(rng.choice(allowed)) if rng.random() < p else "ok" for _ in range(m)]
            if case["marks"] == "ends":
                marks[0] = marks[-1] = str(rng.choice(allowed))
        if case["shape"] == "scalar":
            marks = ["ok" if x == "masked" else x for x in marks]
        mk = np.array(marks, dtype=object)
        D = lambda x: np.array([np.datetime64("0000-12-31T00:00:00.000", "ms") + np.timedelta64(int(round(v * 86400000)), "ms") for v in x], dtype="datetime64[ms]")
        if form in ("python", "matlab", "iso", "list"):
            off = {"matlab": -366, "iso": int((np.datetime64(EPOCH) - np.datetime64("0000-12-31")).astype(int))}.get(form, 0)
            a = vals - off
            a[mk == "nan"] = np.nan
            a[mk == "inf"] = np.inf * (1 if case["junk"] == "plain" else -1)
            if (mk == "masked").any() or (case["junk"] == "wild" and "masked" in allowed):
                a[mk == "masked"] = 1e300 if case["junk"] == "wild" else a[mk == "masked"]
                if case["shape"] != "scalar":
                    a = np.ma.array(a, mask=mk == "masked")
            ep = {"python": "python", "matlab": "matlab", "iso": EPOCH, "list": "python"}[form]
            t = a[0] if case["shape"] == "scalar" else list(a) if form == "list" else a
        else:
            a = D(vals)
            ep = None
            a[mk == "nat"] = np.datetime64("NaT")
            if form == "series":
                t = pd.Series(a)
            elif form == "datetime":
                t = [x.item() for x in a]
                if not t:
                    t = a
            else:
                t = np.ma.array(a, mask=mk == "masked") if (mk == "masked").any() else a
            if case["shape"] == "scalar":
                t = a[0] if form != "datetime" else a[0].item()
        see = np.arange(m) if m <= 1200 else np.sort(rng.choice(m, 60, replace=False))       # of many, some are looked at
        if m > 1200:
            tok = np.arange(m)
            tok[see] = np.arange(60)
            days = days[see]
        ev["el"] = [dict(t=int(tok[i]) + 1, m=marks[i]) for i in see]
        q = lambda x: core.quants(x, 2e7)
        refs = []
        for v in days:
            r = utide.reconstruct(np.array([v]), coef, epoch="python", min_SNR=0, verbose=False)
            refs.append((r.u[0], r.v[0]) if two else (r.h[0],))
        ev["ref"] = [q([x[c] for x in refs]) for c in range(2 if two else 1)]
        r = utide.reconstruct(t, coef, epoch=ep, min_SNR=0, verbose=False)
        out = [np.ma.filled(x, np.nan).ravel() for x in ((r.u, r.v) if two else (r.h,))]
        assert all(len(x) == m for x in out), "number of values"
        ev["out"] = [q(x[see]) for x in out]
    except Exception as e:
        ev.update(ok=False, err=repr(e)[:200])
    return ev


def run(ck):
    rng = np.random.default_rng(ck.seed)
    cases = ck.gen("Gen_Recon", "Gen_Recon_Pts.cfg", num=ck.scale(1200, 15000), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    can = [dict(e, out=[[x + 300 if x < 10**9 else 5 for x in e["out"][0]]] + e["out"][1:]) for e in evs[::60] if e["ok"] and e["el"]]
    for b in ck.judge("Trace_Recon", evs, canary=can):
        ck.violation("; ".join(b["why"]) + f" ({cases[b['i']]['form']}, {cases[b['i']]['shape']})", dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::240]:
        ck.sample(dict(case=c, el=e["el"][:8], out=e["out"][0][:8]))
    ck.extra["elements"] = sum(len(e["el"]) for e in evs)
