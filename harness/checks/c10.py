"""C10: PE, SNR and the diagnostic table; Trace_Energy.tla recomputes them."""
import numpy as np
import core, tidecommon as tc
from c09 import NOISE


def one(case):
    import utide
    rng = np.random.default_rng(case["seed"])
    case = dict(case, noise=NOISE[case["noise"]])
    ev = dict(ok=True, err="", conf=case["conf"], id=case["id"], rows=[], diag=[], hasSNR=False, hasPE=False, hasDiag=False)
    try:
        d = tc.record(rng, case)
        o = tc.solve_opts(case, d["names"])
        inf = tc.make_infer(rng, case, d["names"], case["two"])
        if inf:
            o["infer"] = inf
        np.random.seed(case["seed"])
        k = case["order"]
        if k == "list":
            k = sorted(d["names"] + (inf["inferred_names"] if inf else [])) if case["constit"] == "list" else "frequency"
        if k != "default":
            o["order_constit"] = k
        coef = utide.solve(d["t"], d["u"], d["v"], lat=d["lat"], **o)
        ev.update(hasSNR="SNR" in coef, hasPE="PE" in coef, hasDiag="diagn" in coef)
        for i, n in enumerate(coef["name"]):
            ks = ("Lsmaj", "Lsmin") if case["two"] else ("A",)
            ev["rows"].append(dict(n=str(n), amp=[core.flt(coef[x][i]) for x in ks],
                                   ci=[core.flt(coef[x + "_ci"][i]) for x in ks if x + "_ci" in coef],
                                   pe=core.flt(coef["PE"][i]) if "PE" in coef else [0, 0],
                                   snr=core.flt(coef["SNR"][i]) if "SNR" in coef else [0, 0]))
        if "diagn" in coef:
            g = coef["diagn"]
            ev["diag"] = [dict(n=str(a), pe=core.flt(b), snr=core.flt(c)) for a, b, c in zip(g["name"], g["PE"], g["SNR"])]
    except Exception as e:
        ev.update(ok=False, err=repr(e)[:200])
    return ev


def run(ck):
    ck.mc("MC_Flt", "MC_Flt.cfg")
    rng = np.random.default_rng(ck.seed)
    cases = ck.gen("Gen_Order", "Gen_Order.cfg", num=ck.scale(700, 9000), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    can = []
    for j, e in enumerate(evs[::40]):
        if e["ok"] and e["hasPE"] and len(e["rows"]) > 1:
            key = "snr" if e["hasSNR"] and j % 2 else "pe"
            r = e["rows"]
            can.append(dict(e, rows=[dict(r[0], **{key: [int(r[0][key][0] * 1.001), r[0][key][1]]})] + r[1:]))
    for b in ck.judge("Trace_Energy", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::140]:
        ck.sample(dict(case=c, rows=e["rows"][:3]))
