"""C03: least-squares optimality of the full reconstruction, judged by Trace_Opt.tla."""
import copy
import numpy as np
import core, tidecommon as tc


def set_phasors(coef, two, Z):
    """Z: per constituent A e^{-ig}, or (P, M)."""
    if two:
        P, M = Z
        coef["Lsmaj"], coef["Lsmin"] = abs(P) + abs(M), abs(P) - abs(M)
        ep, em = np.degrees(np.angle(P)), np.degrees(np.angle(M))
        coef["theta"] = (ep + em) / 2
        coef["g"] = coef["theta"] - ep
    else:
        coef["A"], coef["g"] = abs(Z), -np.degrees(np.angle(Z))


def phasors(coef, two):
    if two:
        r = np.pi / 180
        return (0.5 * (coef["Lsmaj"] + coef["Lsmin"]) * np.exp(1j * r * (coef["theta"] - coef["g"])),
                0.5 * (coef["Lsmaj"] - coef["Lsmin"]) * np.exp(1j * r * (coef["theta"] + coef["g"])))
    return coef["A"] * np.exp(-1j * np.radians(coef["g"]))


def one(case):
    import utide
    rng = np.random.default_rng(case["seed"])
    case = dict(case, noise=0.5 if case["noise"] else 1e-3, bigmax=6)
    ev = dict(ok=True, err="", dirs=[], id=case["id"], cond=0)
    try:
        d = tc.record(rng, case)
        two = case["two"]
        o = tc.solve_opts(case, d["names"])
        inf = tc.make_infer(rng, case, d["names"], two)
        if inf:
            o["infer"] = inf
        coef = utide.solve(d["t"], d["u"], d["v"], lat=d["lat"], **o)
        names = [str(x) for x in coef["name"]]
        good = np.isfinite(d["u"]) if d["v"] is None else np.isfinite(d["u"]) & np.isfinite(d["v"])

        def sse(c):
            r = utide.reconstruct(d["t"], c, epoch="python", min_SNR=0, verbose=False)
            if two:
                return float((((r.u - d["u"]) ** 2 + (r.v - d["v"]) ** 2)[good]).sum())
            return float(((r.h - d["u"]) ** 2)[good].sum())

        s0 = sse(coef)
        step = np.sqrt(2 * s0 / good.sum())
        Z0 = phasors(coef, two)
        inferred = set(inf["inferred_names"]) if inf else set()
        rel = {}
        if inf:
            k = len(inf["inferred_names"])
            r = np.array(inf["amp_ratios"])
            ph = np.radians(inf["phase_offsets"])
            for j in range(k):
                Rp = r[j] * np.exp(1j * ph[j])
                Rm = (r[j + k] * np.exp(-1j * ph[j + k])) if two else None
                rel.setdefault(inf["reference_names"][j], []).append((names.index(inf["inferred_names"][j]), Rp, Rm))

        def perturbed(i, comp, dz):
            c = copy.deepcopy(coef)
            Z = [z.copy() for z in Z0] if two else Z0.copy()
            if two:
                Z[comp][i] += dz
                for j, Rp, Rm in rel.get(names[i], ()):
                    Z[comp][j] += (Rp, Rm)[comp] * dz
            else:
                Z[i] += dz
                for j, Rp, _ in rel.get(names[i], ()):
                    Z[j] += Rp * dz
            set_phasors(c, two, Z)
            return sse(c)

        q = lambda s: core.quant(s / s0, 1e6)
        for i, n in enumerate(names):
            if n in inferred:
                continue
            for comp in ((0, 1) if two else (0,)):
                for w, lab in ((1, "re"), (1j, "im")):
                    ev["dirs"].append(dict(n=f"{n}.{comp}.{lab}", sp=q(perturbed(i, comp, step * w)), sm=q(perturbed(i, comp, -step * w))))
        for key in ("mean", "umean", "vmean", "slope", "uslope", "vslope"):
            if key in coef:
                h = step if "mean" in key else step / d["days"] * 3
                s = []
                for sg in (1, -1):
                    c = copy.deepcopy(coef)
                    c[key] = c[key] + sg * h
                    s.append(q(sse(c)))
                ev["dirs"].append(dict(n=key, sp=s[0], sm=s[1]))
        # the directions along which the misfit varies least (and most): from the predictions of every single coordinate
        coords = [(i, comp, w) for i, n in enumerate(names) if n not in inferred for comp in ((0, 1) if two else (0,)) for w in (1, 1j)]

        def along(x):
            c = copy.deepcopy(coef)
            Z = [z.copy() for z in Z0] if two else Z0.copy()
            for (i, comp, w), a in zip(coords, x):
                for j, Rp, Rm in [(i, 1, 1)] + rel.get(names[i], []):
                    if two:
                        Z[comp][j] += (Rp, Rm)[comp] * a * w
                    else:
                        Z[j] += Rp * a * w
            set_phasors(c, two, Z)
            return c

        def series(c):
            r = utide.reconstruct(d["t"], c, epoch="python", min_SNR=0, verbose=False)
            return np.concatenate([r.u[good], r.v[good]]) if two else r.h[good]

        big = float(max(np.abs(Z0[0]).max(), np.abs(Z0[1]).max()) if two else np.abs(Z0).max()) + step
        y0 = series(coef)
        B = np.array([series(along(big * np.eye(len(coords))[k])) - y0 for k in range(len(coords))]).T / big
        _, sv, Vt = np.linalg.svd(B, full_matrices=False)
        ev["cond"] = int(min(1e9, sv[0] / sv[-1]))
        for k in sorted({0, len(sv) // 2, len(sv) - 4, len(sv) - 3, len(sv) - 2, len(sv) - 1} & set(range(len(sv)))):
            h = np.sqrt(s0) / sv[k]
            ev["dirs"].append(dict(n=f"singular direction {k + 1} of {len(sv)}", sp=q(sse(along(h * Vt[k]))), sm=q(sse(along(-h * Vt[k])))))
    except Exception as e:
        ev.update(ok=False, err=repr(e)[:200])
    return ev


def run(ck):
    rng = np.random.default_rng(ck.seed)
    cases = ck.gen("Gen_Opt", "Gen_Opt.cfg", num=ck.scale(320, 2500), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    can = []
    for e in evs[::12]:
        if e["ok"]:
            can.append(dict(e, dirs=[dict(e["dirs"][0], sp=e["dirs"][0]["sp"] + 3000)] + e["dirs"][1:]))
    for b in ck.judge("Trace_Opt", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::40]:
        ck.sample(dict(case=c, dirs=e["dirs"][:3]))
    ck.extra["largest_condition_number"] = max(e["cond"] for e in evs)
    ck.extra["directions"] = sum(len(e["dirs"]) for e in evs)
