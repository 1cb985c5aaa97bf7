"""C06: invalid requests are refused (Request.tla: Faults, Refusal)."""
import numpy as np
import core, tidecommon as tc, requests as rq


def spoil(rng, fault, which, args, kw, info, two):
    """Put one fault into a request.  Returns False if it does not apply."""
    pick = lambda *xs: xs[which % len(xs)]
    anyof = lambda *x: x[int(rng.integers(len(x)))]
    if fault == "unknown_option":
        kw[pick("Constit", "rayleigh_min", "foo", "conf_Int")] = 1
    elif fault == "unknown_constit":
        c = kw.get("constit")
        c = list(c) if c is not None else list(info["names"][:2])
        c.insert(int(rng.integers(0, len(c) + 1)), pick("XX2", "m2", "M2 ", "NOSUCH"))
        kw["constit"] = pick(list, tuple, np.array, list)(c)
    elif fault in ("unknown_reference", "unknown_inferred"):
        i = new_infer(rng, kw, two)
        k = "reference_names" if fault == "unknown_reference" else "inferred_names"
        i[k] = list(i[k])
        i[k][which % len(i[k])] = pick("XX2", "k1", "P1x", "NOSUCH")
        kw["conf_int"] = "none" if kw.get("conf_int") == "MC" else kw["conf_int"]
        if isinstance(kw.get("order_constit"), (list, tuple, np.ndarray)):
            kw["order_constit"] = "PE"
    elif fault == "no_latitude":
        if which % 2:
            kw.pop("lat", None)
        else:
            kw["lat"] = None
    elif fault == "two_dim_input":
        r = lambda x: np.asarray(x)[:2 * (len(x) // 2)].reshape(2, -1)
        if which == 0:
            args[0], args[1] = r(args[0]), r(args[1])
            if two:
                args[2] = r(args[2])
        elif which == 1:
            args[1] = np.asarray(args[1])[:, None]
        elif which == 2:
            args[0] = np.asarray(args[0])[None, :]
        else:
            args[0], args[1] = np.asarray(args[0])[:, None], np.asarray(args[1])[:, None]
            if two:
                args[2] = np.asarray(args[2])[:, None]
    elif fault == "shape_u":
        args[1] = np.asarray(args[1], float)
        args[1] = pick(args[1][:-1], args[1][::2], np.concatenate([args[1], args[1][:1]]), args[1][:0])
    elif fault == "shape_v":
        if not two:
            return False
        args[2] = np.asarray(args[2], float)
        v = args[2]
        if kw.get("epoch") == "python" and type(args[0]) is np.ndarray and rng.random() < 0.5:      # samples without a time are left out
            args[0] = args[0].copy()
            args[0][[5, 9]] = np.nan
        args[2] = pick(v[:-1], v[::2], np.concatenate([v, v[:1]]), v[:1]) if rng.random() < 0.5 else pick(v[:, None], v[None, :], v[:2 * (len(v) // 2)].reshape(2, -1), v[0])
    elif fault == "bad_conf":
        kw["conf_int"] = anyof("Linear", "bootstrap", "None", "mc", "LINEAR", "linear ", "lin", "", "monte carlo", True, None, "MC_n")
    elif fault == "bad_method":
        kw["method"] = anyof("OLS", "cauchy", "lsqr", None, "Robust", "robust ", "rob", "", True, 1)
    elif fault == "bad_phase":
        kw["phase"] = anyof("greenwich", "local", "linear", None, "Raw", "raw ", "GREENWICH", "linear-time", "Linear_time", "", "r", 0)
    elif fault == "bad_nodal":
        kw["nodal"] = anyof("exact", "none", "linear", "True", None, "Linear_time", "linear_time ", "linear-time", "", 2, "False")
    elif fault == "bad_order":
        o = anyof("energy", "pe", "foreign", "foreign", 5, "Pe", "PE ", "freq", "Frequency", "FREQUENCY", "snr", "SNR ", "", True, 0.5)
        kw["order_constit"] = [info["names"][0], "ETA2X"] if o == "foreign" else o
    elif fault == "snr_without_ci":
        kw["conf_int"], kw["order_constit"] = "none", "SNR"
    elif fault == "infer_missing_key":
        i = new_infer(rng, kw, two)
        k = pick("inferred_names", "reference_names", "amp_ratios", "phase_offsets")
        if rng.random() < 0.4:
            i[k + "s"] = i[k]
        del i[k]
    elif fault == "infer_names_len":
        i = new_infer(rng, kw, two)
        if which % 2:
            i["reference_names"] = list(i["reference_names"]) + ["M2"]
        else:
            i["inferred_names"] = list(i["inferred_names"])[:-1]
    elif fault in ("infer_ratio_len", "infer_offset_len"):
        i = new_infer(rng, kw, two)
        k = "amp_ratios" if fault == "infer_ratio_len" else "phase_offsets"
        x = list(i[k])
        n = len(i["inferred_names"])
        if two:
            x = pick(x[:n], x + x[:1], x[:-1], x + x)
        else:
            x = pick(x + x, x[:-1], x + x[:1], [])
        i[k] = x
    elif fault == "infer_lens_cancel":               # one too short, the other too long
        i = new_infer(rng, kw, two)
        a, b = ("amp_ratios", "phase_offsets") if which % 2 else ("phase_offsets", "amp_ratios")
        n = len(i["inferred_names"]) if two and which < 2 else 1
        i[a], i[b] = list(i[a])[:-n], list(i[b]) + list(i[b])[:n]
    elif fault == "bad_epoch":
        if not isinstance(kw.get("epoch"), str):       # calendar times take no epoch
            kw["epoch"] = pick("python", "matlab", "1999-01-01", "nonsense")
        else:
            kw["epoch"] = pick("nonsense", "1999-13-45", "Python", {"a": 1})
    elif fault == "mc_infer":
        new_infer(rng, kw, two)
        kw["conf_int"] = "MC"
        if isinstance(kw.get("order_constit"), (list, tuple, np.ndarray)):
            kw["order_constit"] = "PE"
    else:
        raise ValueError(fault)
    return True


def new_infer(rng, kw, two):
    """A fresh valid inference specification in kw (or the present one)."""
    if kw.get("infer") is None:
        m = 2 if two else 1
        kw["infer"] = dict(inferred_names=["P1"], reference_names=["K1"], amp_ratios=[0.3] * m, phase_offsets=[5.0] * m)
        if isinstance(kw.get("order_constit"), (list, tuple, np.ndarray)):
            kw["order_constit"] = "PE"
    return kw["infer"]


# faults that concern the same part of a request, where a second one would undo the first
PART = dict(unknown_reference="infer", unknown_inferred="infer", infer_missing_key="infer", infer_names_len="infer", infer_ratio_len="infer",
            infer_offset_len="infer", infer_lens_cancel="infer", mc_infer="infer", two_dim_input="shape", shape_u="shape", shape_v="shape", bad_order="order", snr_without_ci="order",
            bad_conf="conf")


def compatible(f, g):
    if f == g:
        return False
    p, q = PART.get(f, f), PART.get(g, g)
    if p == q:
        return False
    if {"conf", "order"} <= {p, q} or ("mc_infer" in (f, g) and {p, q} & {"conf", "order"}) or ("infer" in (p, q) and "conf" in (p, q)):
        return False
    return not ("infer" in (p, q) and "order" in (p, q))


def attempt(fn):
    try:
        r = fn()
        return ["result"], "", r
    except core.CaseTimeout:
        raise
    except Exception as e:
        return [c.__name__ for c in type(e).__mro__], repr(e)[:160], None


def one(case):
    import utide
    rng = np.random.default_rng(case["seed"])
    two = case["two"]
    args, kw, info = rq.build(rng, dict(case, n=int(rng.integers(200, 300)), group=int(rng.integers(0, 2))))
    faults = []
    for f in (case["f1"], case["f2"]):
        if f == "nothing" or (faults and not compatible(f, faults[0])):
            continue
        if spoil(rng, f, case["which"], args, kw, info, two):
            faults.append(f)
    if not two:
        args = args[:2] if rng.random() < 0.5 else args
    out, err, coef = attempt(lambda: utide.solve(*args, **kw))
    evs = [dict(call="solve", faults=faults, outcome=out, err=err)]
    if out == ["result"] and not faults:
        t, ep = info["days"][:30], "python"
        fs = []
        if case["recon"] == "two_dim_time":
            fs = ["two_dim_time"]
            t = (t.reshape(3, 10), t.reshape(1, 30), t[:, None], t.reshape(2, 5, 3))[case["which"] % 4]
        if case["recon"] == "bad_epoch":
            fs = ["bad_epoch"]
            ep = ("nonsense", "2001-02-30", "Matlab", "python ")[case["which"] % 4]
        out, err, _ = attempt(lambda: utide.reconstruct(t, coef, epoch=ep, verbose=False))
        evs.append(dict(call="reconstruct", faults=fs, outcome=out, err=err))
    return evs


def run(ck):
    rng = np.random.default_rng(ck.seed)
    single = ck.gen("Gen_Fault", "Gen_Fault_One.cfg")       # every single fault, exhaustively
    base = ck.gen("Gen_Fault", "Gen_Fault.cfg", num=ck.scale(2200, 30000), depth=40)
    cases = list(base)
    for i, s in enumerate(single):
        cases.append(dict(base[i % len(base)], f1=s["f"], f2="nothing", which=s["which"], two=s["two"], conf=s["conf"],
                          infer="none" if s["f"] == "mc_infer" else base[i % len(base)]["infer"]))
    for i, c in enumerate(base[150:600]):                  # shapes, with and without samples that have no time
        f = ("shape_v", "shape_u", "two_dim_input", "shape_v")[i % 4]
        cases.append(dict(c, f1=f, f2="nothing", two=c["two"] or f == "shape_v", tform="array", which=int(rng.integers(4)), infer="none" if c["infer"] != "none" and f == "shape_v" else c["infer"]))
    for i, c in enumerate(base[:150]):
        cases.append(dict(c, f1="nothing", f2="nothing"))
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    res = core.pmap(one, cases)
    evs, back = [], []
    for i, r in enumerate(res):
        for e in r:
            evs.append(e)
            back.append(i)
    can = [dict(e, outcome=["result"]) for e in evs[::50] if e["faults"]] + [dict(e, outcome=["OSError", "Exception"]) for e in evs[::50] if e["faults"]]
    for b in ck.judge("Trace_Fault", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[back[b["i"]]], event=evs[b["i"]]))
    n = {}
    for e in evs:
        for f in e["faults"] or ["(none)"]:
            n[e["call"] + ":" + f] = n.get(e["call"] + ":" + f, 0) + 1
    ck.extra["requests_per_fault"] = n
    ck.extra["two_fault_requests"] = sum(len(e["faults"]) == 2 for e in evs)
    for e in evs[::400]:
        ck.sample(e)
