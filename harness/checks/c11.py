"""C11: every documented option combination yields a complete result (Request.tla: Schema)."""
import contextlib, io
import numpy as np
import core, tidecommon as tc, requests as rq

PER = ("A", "g", "Lsmaj", "Lsmin", "theta", "A_ci", "g_ci", "Lsmaj_ci", "Lsmin_ci", "theta_ci", "PE", "SNR")


def one(case):
    import utide
    rng = np.random.default_rng(case["seed"])
    size = 1000.0 if "int" in (case["uform"], case["vform"]) else float(rng.choice([1.0, 1e-4, 2e5]))
    special = str(rng.choice(["free"] * 6 + ["zero", "proportional", "spikes", "spikes"])) if "int" not in (case["uform"], case["vform"]) else "free"
    args, kw, info = rq.build(rng, dict(case, n=int(rng.integers(340, 480)), vform=case["vform"], special=special), size)
    listed = info["names"] if case["constit"] != "auto" else []
    oc = kw.get("order_constit")
    order = [str(x) for x in oc] if isinstance(oc, (list, tuple, np.ndarray)) else []
    ev = dict(ok=True, err="", id=case["id"], req={k: case[k] for k in ("two", "trend", "conf", "order", "method")}, keys=[], names=[], len={}, val={}, diagn=[],
              nR=0, nNR=0, nI=0, nw=0, wok=True, retained=info["retained"], listed=listed, order=order, rec=True, recerr="")
    ev["req"]["order"] = kw.get("order_constit") if isinstance(kw.get("order_constit"), str) else "list" if order else "default"
    try:
        if not case["two"] and rng.random() < 0.5:
            args = args[:2]
        np.random.seed(case["seed"])
        with contextlib.redirect_stdout(io.StringIO()):
            coef = utide.solve(*args, **kw)
        ev["keys"] = [str(k) for k in coef.keys()]
        ev["names"] = [str(x) for x in coef["name"]]
        for k in ("nR", "nNR", "nI"):
            ev[k] = int(coef[k])
        w = np.asarray(coef["weights"], float)
        ev["nw"], ev["wok"] = int(w.size), bool(np.isfinite(w).all())
        for k in PER:
            if k in coef:
                x = np.asarray(coef[k], float)
                ev["len"][k] = int(x.size) if x.ndim == 1 else -1
                s = 1e6 if k in ("g", "theta", "g_ci", "theta_ci") else 1 if k == "SNR" else 1e6 if k == "PE" else 1e8 / size
                ev["val"][k] = core.quants(np.where(np.isfinite(x) & (np.abs(x) * s > 1e9), np.sign(x) * 1e9 / s, x).ravel(), s) if k in ("SNR", "g_ci", "theta_ci") else core.quants(x.ravel(), s)
        for k in ("mean", "umean", "vmean", "slope", "uslope", "vslope"):
            if k in coef:
                ev["val"][k] = core.quants(np.atleast_1d(coef[k]), 1e8 / size)
        if "diagn" in coef:
            ev["diagn"] = [str(k) for k in coef["diagn"].keys()]
        with contextlib.redirect_stdout(io.StringIO()):
            r = utide.reconstruct(args[0], coef, epoch=kw.get("epoch"), verbose=case["verbose"], min_SNR=0)
        x = [r.u, r.v] if case["two"] else [r.h]
        if not all(len(np.asarray(y)) == info["n"] and np.isfinite(np.asarray(y, float)).sum() >= info["retained"] for y in x):
            ev.update(rec=False, recerr="incomplete series")
    except Exception as e:
        import traceback
        ev.update(ok=bool(ev["keys"]), err=repr(e)[:200], rec=False, recerr=repr(e)[:200], tb=traceback.format_exc()[-700:])
    return ev


def run(ck):
    rng = np.random.default_rng(ck.seed)
    base = ck.gen("Gen_Schema", "Gen_Schema.cfg", num=ck.scale(1500, 20000), depth=40)
    small = ck.gen("Gen_Schema", "Gen_Schema_All.cfg")
    cases = base + [dict(base[i % len(base)], vform="array" if not s["two"] else base[i % len(base)]["vform"], **{k: v for k, v in s.items()}) for i, s in enumerate(small)]
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    can = []
    for e in evs[::60]:
        if e["ok"]:
            can.append(dict(e, keys=[k for k in e["keys"] if k != "g"]))
            can.append(dict(e, nw=e["nw"] + 1))
            can.append(dict(e, val=dict(e["val"], g=[-1] + e["val"]["g"][1:])))
    for b in ck.judge("Trace_Schema", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::200]:
        ck.sample(dict(case=c, keys=e["keys"]))
    ck.extra["exhaustive_field_configurations"] = len(small)
