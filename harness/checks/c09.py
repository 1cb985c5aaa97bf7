"""C09: order_constit only permutes.  One analysis reported in every order; Trace_Order.tla compares."""
import numpy as np
import core, tidecommon as tc

PARAMS = ("A", "g", "Lsmaj", "Lsmin", "theta", "A_ci", "g_ci", "Lsmaj_ci", "Lsmin_ci", "theta_ci", "PE", "SNR")
NOISE = (0.001, 0.2, 1.5)


def one(case):
    import utide
    rng = np.random.default_rng(case["seed"])
    case = dict(case, noise=NOISE[case["noise"]])
    ev = dict(ok=True, err="", orders=[], id=case["id"])
    try:
        d = tc.record(rng, case)
        o = tc.solve_opts(case, d["names"])
        inf = tc.make_infer(rng, case, d["names"], case["two"])
        if inf:
            o["infer"] = inf
        kinds = ["PE", "frequency", "list", "default"] + (["SNR"] if case["conf"] != "none" else [])
        want = None
        tt = np.concatenate([d["t"][:6], d["t"][-1] + np.arange(1, 7) * 3.3])
        for k in kinds:
            if k == "list":
                want = [str(x) for x in rng.permutation(names)]
            np.random.seed(case["seed"])
            coef = utide.solve(d["t"], d["u"], d["v"], lat=d["lat"],
                               **dict(o, **({} if k == "default" else {"order_constit": want if k == "list" else k})))
            names = [str(n) for n in coef["name"]]
            cols = [p for p in PARAMS if p in coef and (p != "PE" or case["conf"] != "none")]
            rows = []
            for i, n in enumerate(names):
                x = [core.flt(coef[p][i]) for p in cols]
                rows.append(dict(n=n, f=core.flt(coef["aux"]["frq"][i]), x=x,
                                 pe=core.flt(coef["PE"][i]) if "PE" in coef else [0, 0],
                                 snr=core.flt(coef["SNR"][i]) if "SNR" in coef else [0, 0]))
            q = lambda r: core.quants(np.concatenate([r.u, r.v]) if case["two"] else r.h, 1e6 / d["size"])
            pred = q(utide.reconstruct(tt, coef, epoch="python", min_SNR=0, verbose=False))
            some = sorted(names)[:3]
            single = [q(utide.reconstruct(tt[:4], coef, epoch="python", constit=[n], verbose=False)) for n in some]
            ev["orders"].append(dict(kind="PE" if k == "default" else k, want=want if k == "list" else [], rows=rows, pred=pred, single=single))
    except Exception as e:
        ev.update(ok=False, err=repr(e)[:200])
    return ev


def run(ck):
    ck.mc("MC_Order", "MC_Order.cfg")
    ck.mc("MC_Order", "MC_Order_mut1.cfg", expect_violation="Attached")
    ck.mc("MC_Order", "MC_Order_mut2.cfg", expect_violation="InOrder")
    rng = np.random.default_rng(ck.seed)
    cases = ck.gen("Gen_Order", "Gen_Order.cfg", num=ck.scale(300, 4000), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    can = []
    for e in evs[::30]:
        if e["ok"] and len(e["orders"][0]["rows"]) > 1:
            o = e["orders"][1]
            r = o["rows"]
            r2 = [dict(r[0], x=r[1]["x"]), dict(r[1], x=r[0]["x"])] + r[2:]
            can.append(dict(e, orders=[e["orders"][0], dict(o, rows=r2)] + e["orders"][2:]))
    for b in ck.judge("Trace_Order", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::60]:
        ck.sample(dict(case=c, names=[[r["n"] for r in o["rows"]][:8] for o in e["orders"]]))
