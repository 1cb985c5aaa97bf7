"""C08: inferred constituents keep the given relation (Infer.tla)."""
import numpy as np
import core, tidecommon as tc, refmodel as rm
from c03 import set_phasors


def one(case):
    import utide
    rng = np.random.default_rng(case["seed"])
    two = case["two"]
    ev = dict(ok=True, err="", id=case["id"], pairs=[], ci=[], got=None, want=None, recover="no")
    try:
        start = tc.era_start(rng, case["era"])
        kind = case["samp"]
        t = tc.make_times(rng, "regular" if kind == "nangaps" else kind, case["span"], 60, start)
        lat = tc.pick_lat(rng, case["lat"])
        drop = np.zeros(len(t), bool)
        if kind == "nangaps":
            drop = rng.random(len(t)) < 0.1
            drop[[0, -1]] = False
        t0 = 0.5 * (t[0] + t[-1])
        days = t[-1] - t[0]
        # directly fitted constituents, and references among them
        if case["pairs"] == "natural":
            fit = ["K1", "S2", "O1", "M2", "N2", "Q1", "M4"][:int(rng.integers(3, 8))]
            fam = [("P1", "K1"), ("S1", "K1"), ("PI1", "K1"), ("PSI1", "K1"), ("K2", "S2"), ("T2", "S2"), ("R2", "S2"), ("TAU1", "O1"), ("BET1", "O1"),
                   ("H1", "M2"), ("H2", "M2"), ("NU2", "N2"), ("RHO1", "Q1")]
            fam = [f for f in fam if f[1] in fit and f[0] in tc.IDX]
        else:
            fit = tc.pick_separated(rng, 7, days, 60 * 1.6, t0, factor=1.6 if case["infer"] == "exact" else 3.0)
            rest = [n for n in tc.NAMES if n not in fit and n not in ("M7", "Z0")]
            fam = [(str(rest[i]), str(rng.choice(fit))) for i in rng.permutation(len(rest))[:8]]
            if case["infer"] == "approx":          # the approximation is meant for unresolved neighbours
                fam = []
                for n in rng.permutation(rest):
                    f = rm.freq(tc.IDX[str(n)], t0)
                    near = [r for r in fit if abs(rm.freq(tc.IDX[r], t0) - f) * 24 * days < 0.8]
                    if near and len(fam) < 8:
                        fam.append((str(n), near[0]))
        if not fam:
            return None
        order = rng.permutation(len(fam))
        fam = [fam[i] for i in order]
        if case["refs"] == "one":
            fam = [f for f in fam if f[1] == fam[0][1]]
        fam = fam[:case["npairs"]]
        if case["refs"] == "interleaved":
            groups = {}
            for f in fam:
                groups.setdefault(f[1], []).append(f)
            fam = [g[k] for k in range(8) for g in groups.values() if k < len(g)]
        k = len(fam)
        rmax = 0.45 / max(1, max(sum(f[1] == r for f in fam) for r in {x[1] for x in fam})) ** 0.5
        ratio = np.round(rng.uniform(0.05, rmax, (2, k)), 4)
        off = np.round(rng.uniform(-180, 180, (2, k)), 3)
        if rng.random() < 0.15:
            off[:] = rng.choice([0.0, 180.0, 90.0, -90.0, 360.0, 400.0], (2, k))
        m = 2 if two else 1
        inf = dict(inferred_names=[f[0] for f in fam], reference_names=[f[1] for f in fam], amp_ratios=[float(x) for x in ratio[:m].ravel()],
                   phase_offsets=[float(x) for x in off[:m].ravel()])
        if case["infer"] == "approx":
            inf["approximate"] = True
        elif rng.random() < 0.5:
            inf["approximate"] = False
        refs = list(dict.fromkeys(f[1] for f in fam))
        constit = {"neither": [n for n in fit if n not in refs], "refs": list(fit), "all": fit + [f[0] for f in fam],
                   "onlyinfer": [n for n in fit if n not in refs] + [f[0] for f in fam]}[case["listed"]]
        constit = [str(x) for x in rng.permutation(constit)] if constit else []
        if not constit:
            constit = list(fit)
        allnames = fit + [f[0] for f in fam]
        # the tide: rotary pairs of the fitted ones, inferred by the relation
        n = len(allnames)
        P = np.zeros(n, complex)
        M = np.zeros(n, complex)
        P[:len(fit)] = rng.uniform(0.1, 0.5, len(fit)) * np.exp(2j * np.pi * rng.random(len(fit)))
        M[:len(fit)] = rng.uniform(0.1, 0.5, len(fit)) * np.exp(2j * np.pi * rng.random(len(fit))) if two else P[:len(fit)].conj()
        for j, (a, b) in enumerate(fam):
            P[len(fit) + j] = P[fit.index(b)] * ratio[0, j] * np.exp(1j * np.radians(off[0, j]))
            M[len(fit) + j] = M[fit.index(b)] * ratio[-1, j] * np.exp(-1j * np.radians(off[-1, j])) if two else P[len(fit) + j].conj()
        mean, sl = rng.uniform(-1, 1, 2), rng.uniform(-0.5, 0.5, 2) / days * (1 if case["trend"] else 0)
        L, l = abs(P) + abs(M), abs(P) - abs(M)
        th = np.degrees(np.angle(P) + np.angle(M)) / 2
        g = th - np.degrees(np.angle(P))
        if two:
            u, v = rm.predict_vector(allnames, L, l, th, g, mean[0], mean[1], sl[0], sl[1], t, t0, lat, case["phase"], case["nodal"])
            cs = [dict(n=allnames[i], L=core.quant(L[i], 1e8), l=core.quant(l[i], 1e8), th=tc.ang6(th[i]), g=tc.ang6(g[i])) for i in range(n)]
        else:
            A, g = 2 * abs(P), -np.degrees(np.angle(P))
            u, v = rm.predict_scalar(allnames, A, g, mean[0], sl[0], t, t0, lat, case["phase"], case["nodal"]), None
            cs = [dict(n=allnames[i], A=core.quant(A[i], 1e8), g=tc.ang6(g[i])) for i in range(n)]
        ev["want"] = dict(two=two, trend=case["trend"], cs=cs, mean=[], slope=[])
        if case["data"] == "noise":
            u = u + 0.3 * rng.standard_normal(len(t))
            v = None if v is None else v + 0.3 * rng.standard_normal(len(t))
        elif case["method"] == "ols" or case["infer"] == "exact":
            ev["recover"] = case["infer"]
            if case["infer"] == "approx" and (kind in ("gappy", "nangaps") or (case["pairs"] == "natural" and days < 45)):
                ev["recover"] = "no"
        size = float(2 * abs(P).max())
        s = 1.0 / max(1.0, size)
        for c in ev["want"]["cs"]:
            for key in ("L", "l", "A"):
                if key in c:
                    c[key] = int(round(c[key] * s))
        u[drop] = np.nan
        if two:
            v[drop] = np.nan
        o = dict(constit=constit, infer=inf, conf_int=case["conf"], white=case["white"], trend=case["trend"], phase=case["phase"], nodal=tc.NODAL[case["nodal"]],
                 epoch="python", verbose=False, method=case["method"])
        o["order_constit"] = {"default": None, "frequency": "frequency", "list": [str(x) for x in rng.permutation(sorted(set(constit) | set(allnames)
                              if case["listed"] != "none" else allnames))]}[case["order"]]
        if case["order"] == "list":
            o["order_constit"] = [str(x) for x in rng.permutation(sorted(set(constit) | set(inf["inferred_names"]) | set(inf["reference_names"])))]
        # the directly fitted ones that are not listed are not analysed
        if set(constit) | set(refs) < set(fit):
            ev["recover"] = "no"
        coef = utide.solve(t, u, v, lat=lat, **o)
        ev["got"] = tc.observe(coef, 1.0 / s, days)
        ev["pairs"] = [dict(ref=fam[j][1], inf=fam[j][0], r=[core.quant(ratio[c, j], 1e8) for c in range(m)], z=[tc.ang6(off[c, j]) for c in range(m)]) for j in range(k)]
        if case["conf"] != "none" and case["data"] == "noise":
            w = tc.by_name(coef, ("A_ci", "g_ci", "Lsmaj_ci", "Lsmin_ci", "theta_ci"))
            keys = ("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci") if two else ("A_ci", "g_ci")
            ev["ci"] = [dict(ref=[core.flt(w[b][x]) for x in keys], inf=[core.flt(w[a][x]) for x in keys]) for a, b in fam]
        if ev["recover"] != "no":
            w = tc.by_name(coef, ("A", "g", "Lsmaj", "Lsmin", "theta"))
            z = []
            for i, nm in enumerate(allnames):
                if two:
                    q = w[nm]
                    z.append(abs(0.5 * (q["Lsmaj"] + q["Lsmin"]) * np.exp(1j * np.radians(q["theta"] - q["g"])) - P[i]))
                    z.append(abs(0.5 * (q["Lsmaj"] - q["Lsmin"]) * np.exp(1j * np.radians(q["theta"] + q["g"])) - M[i]))
                else:
                    z.append(abs(w[nm]["A"] * np.exp(-1j * np.radians(w[nm]["g"])) - 2 * P[i]))
            ev["err_rel"] = float(max(z) * s)
    except Exception as e:
        import traceback
        ev.update(ok=False, err=repr(e)[:200], tb=traceback.format_exc()[-700:])
    return ev


def run(ck):
    rng = np.random.default_rng(ck.seed)
    rm.bind(ck, rng, 30)
    ck.mc("MC_Infer", "MC_Infer.cfg", workers=4)
    cases = ck.gen("Gen_Infer", "Gen_Infer.cfg", num=ck.scale(800, 12000), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    cases, evs = zip(*[(c, e) for c, e in zip(cases, evs) if e is not None])
    can = []
    for e in evs[::40]:
        if e["ok"]:
            q = e["pairs"]
            can.append(dict(e, pairs=[dict(q[0], z=[x + 10**6 for x in q[0]["z"]])] + q[1:]))
            if e["ci"]:
                can.append(dict(e, ci=[dict(x, inf=[[2 * y[0], y[1]] for y in x["inf"]]) for x in e["ci"]]))
            can.append(dict(e, ci=[], pairs=q + [dict(q[0], inf="NONE")]))
    for b in ck.judge("Trace_Infer", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::160]:
        ck.sample(dict(case=c, pairs=e["pairs"], recover=e["recover"], error=e.get("err_rel")))
    for kind in ("exact", "approx"):
        x = [e["err_rel"] for e in evs if e["recover"] == kind and "err_rel" in e]
        ck.extra["recovered_" + kind] = dict(n=len(x), worst=max(x, default=None), sorted_tail=sorted(x)[-6:])
