"""C31: results record what they were made with, and the record repeats the analysis (Config.tla, MC_Config.tla, Trace_Config.tla)."""
import contextlib, copy, datetime, io, warnings
import numpy as np
import core, tidecommon as tc, requests as rq

YES = dict(yes=True, no=False)


def token(o, v):
    """Options as tokens: by value, whatever the container."""
    if v is None:
        return "None"
    if o == "infer":
        if isinstance(v, str):
            return v
        d = {k: v[k] for k in v}
        nums = lambda x: ",".join(f"{float(y):g}" for y in x)
        return ";".join(["%s<%s" % (",".join(map(str, d["inferred_names"])), ",".join(map(str, d["reference_names"]))), nums(d["amp_ratios"]), nums(d["phase_offsets"]),
                         "approximate" if d.get("approximate", False) else "exact"])
    if o == "robust_kw":
        return " ".join(f"{k}={v[k]}" for k in sorted(v))
    if o in ("constit", "order_constit") and not isinstance(v, str):
        return "names " + " ".join(map(str, v))
    if o in ("Rayleigh_min", "min_SNR", "min_PE"):
        return f"{float(v):g}"
    if o in ("trend", "white", "verbose") or (o == "nodal" and not isinstance(v, str)):
        return str(bool(v))
    return str(v)


OPTS = ("constit", "order_constit", "conf_int", "method", "trend", "phase", "nodal", "infer", "Rayleigh_min", "robust_kw", "white", "verbose", "epoch")


def find_record(x, depth=0):
    """The mapping below a solution that has a value for every documented option."""
    if isinstance(x, dict) and depth < 6:
        if all(o in x for o in OPTS):
            return x
        for v in x.values():
            r = find_record(v, depth + 1)
            if r is not None:
                return r
    return None


def tokens(rec):
    return {o: token(o, rec[o]) for o in OPTS} if rec is not None else {"none": "missing"}


def difference(a, b, scale):
    """The largest relative difference of two results, in 1e-9."""
    if [str(x) for x in a["name"]] != [str(x) for x in b["name"]] or set(a) != set(b):
        return 1000000000
    m = 0.0
    for k in a:
        x = np.asarray(a[k]) if not isinstance(a[k], dict) else None
        if x is not None and x.dtype.kind in "fi":
            y = np.asarray(b[k], float)
            if x.shape != y.shape or (np.isfinite(x) != np.isfinite(y)).any():
                return 1000000000
            f = np.isfinite(x)
            if f.any():
                m = max(m, float((np.abs(x[f] - y[f]) / (1e-3 * scale + np.abs(y[f]))).max()))
    return int(min(m * 1e9, 1e9))


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def predict(utide, rng, case, coef, two, info):
    kw, given = {}, {}
    names = [str(x) for x in coef["name"]]
    c = dict(none=None, some=list(rng.permutation(names)[: max(1, len(names) // 2)]), all=tuple(names), empty=[]).get(case["pconstit"].lower())
    for o, key, v in (("pconstit", "constit", c), ("psnr", "min_SNR", None), ("ppe", "min_PE", None)):
        if case[o] != "-":
            kw[key] = v if o == "pconstit" else float(case[o])
            given[key] = token(key, kw[key])
    days = np.round((info["days"][0] + rng.uniform(0, 50, 40)) * 8) / 8
    form = str(rng.choice(["array", "list", "dt64", "datetime", "index", "series", "matlab", "date", "scalar", "int"]))
    if form in ("array", "list", "series", "dt64", "datetime", "index"):
        t, ep = rq.time_form(days, form)
    elif form == "matlab":
        t, ep = days + 366, "matlab"
    elif form == "date":
        t, ep = days - 730120, str(rng.choice(["2000-01-01", "2000-01-01T00:00"]))
    elif form == "int":
        days = np.floor(days)
        t, ep = days.astype(int), "python"
    else:
        days = days[0]
        t, ep = float(days), "python"
    if form in ("array", "list", "dt64", "matlab", "date") and rng.random() < 0.4:     # invalid instants keep their places
        i = rng.choice(len(days), 3, replace=False)
        days[i] = np.nan
        if form == "list":
            t = [float("nan") if k in i else x for k, x in enumerate(t)]
        else:
            t = np.array(t) if form == "dt64" else np.array(t, float)
            t[i] = "NaT" if form == "dt64" else np.nan
    if ep is not None or rng.random() < 0.5:
        kw["epoch"] = ep
        given["epoch"] = token("epoch", ep)
    if rng.random() < 0.7:
        kw["verbose"] = bool(rng.random() < 0.5)
    p = dict(given=given or [], two=two, err="", echo={}, fields=[], tin=True, tmpl=True, warns=True, form=form)
    try:
        kept = copy.deepcopy(t)
        with quiet():
            r = utide.reconstruct(t, coef, **kw)
        p["fields"] = [str(k) for k in r.keys()]
        p["echo"] = {k: token(k, r[k]) for k in ("epoch", "constit", "min_SNR", "min_PE") if k in r}
        x, y = np.asarray(t), np.asarray(kept)
        same = x.shape == y.shape and bool(np.all((x == y) | ((x != x) & (y != y))))
        p["tin"] = "t_in" in r and same and (r["t_in"] is t or (form == "scalar" and r["t_in"] == t))
        m = r["t_mpl"]
        p["tmpl"] = bool(np.shape(np.atleast_1d(m)) == np.shape(np.atleast_1d(days)) and np.array_equal(np.isnan(np.asarray(m, float)), np.isnan(days)) and not np.nanmax(np.abs(np.asarray(m, float) - days)) > 1e-7) and (ep != "python" or m is r["t_in"])
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            a = r.t_mpl
        p["warns"] = a is r["t_mpl"] and any(issubclass(x.category, FutureWarning) for x in w)
    except Exception as e:
        p["err"] = repr(e)[:200]
    return p


def one(case):
    import utide
    from utide.utilities import Bunch
    rng = np.random.default_rng(case["seed"])
    two = case["two"]
    size = float(rng.choice([1.0, 1e-3, 3e4]))
    full = dict(case, conf="none", order="default", infer=case["infer"] if case["infer"] in ("exact", "approx") else "exact" if case["infer"] == "plain" else "none",
                samp=str(rng.choice(["regular", "jitter", "nangaps"])), uform=str(rng.choice(["array", "list", "masked", "series"])), n=int(rng.integers(340, 420)),
                phase="Greenwich", nodal="exact", trend=True, verbose=False, constit=case["constit"] if case["constit"] != "-" else "auto", method="ols")
    full.pop("wf"), full.pop("white")
    args, b, info = rq.build(rng, full, size)
    kw = {k: b[k] for k in ("epoch", "constit", "infer") if k in b}
    if case["constit"] == "auto":
        kw["constit"] = "auto"
    if case["infer"] in ("None", "none"):
        kw["infer"] = None if case["infer"] == "None" else "none"
    elif case["infer"] != "-" and "infer" in kw and case["infer"] != "approx" and rng.random() < 0.4:
        kw["infer"] = type(kw["infer"])(kw["infer"], approximate=False)
    for o, k, f in (("trend", "trend", YES.get), ("phase", "phase", str), ("nodal", "nodal", tc.NODAL.get), ("conf", "conf_int", str), ("white", "white", YES.get),
                    ("method", "method", str), ("wf", "robust_kw", lambda x: dict(weight_function=x)), ("rmin", "Rayleigh_min", float), ("verbose", "verbose", YES.get)):
        if case[o] != "-":
            kw[k] = f(case[o])
    if case["order"] in ("PE", "SNR", "frequency"):
        kw["order_constit"] = case["order"]
    elif case["order"] == "None":
        kw["order_constit"] = None
    elif case["order"] != "-":
        kw["order_constit"] = dict(list=list, tuple=tuple, array=np.array)[case["order"]]([str(x) for x in rng.permutation(info["names"])])
    lat = float(np.clip(b["lat"] + rng.uniform(-0.02, 0.02), -89.9, 89.9))
    given = {o: token(o, v) for o, v in kw.items()}
    ev = dict(err="", given=given or [], rec={}, rec2={}, err2="", diff=0, lat0=core.quant(lat, 1e6), lat=0, argsame=True, pred=[], id=case["id"])
    try:
        kept = copy.deepcopy(kw)
        np.random.seed(case["seed"])
        with quiet():
            coef = utide.solve(*args, lat=lat, **kw)
        ev["argsame"] = set(kw) == set(kept) and all(token(o, kw[o]) == token(o, kept[o]) and (not isinstance(kept[o], dict) or set(kw[o]) == set(kept[o])) for o in kw)
        rec = find_record(coef)
        ev["rec"] = tokens(rec)
        ev["lat"] = core.quant(coef["aux"]["lat"], 1e6)
    except Exception as e:
        import traceback
        ev.update(err=repr(e)[:200], tb=traceback.format_exc()[-600:])
        return ev
    if rec is not None:
        try:
            np.random.seed(case["seed"])
            opts = copy.deepcopy({o: rec[o] for o in rec})
            with quiet():
                again = utide.solve(*args, lat=coef["aux"]["lat"], **opts)
            ev["rec2"] = tokens(find_record(again))
            ev["diff"] = difference(coef, again, size)
        except Exception as e:
            ev["err2"] = repr(e)[:200]
    ev["pred"] = [predict(utide, rng, case, coef, two, info), predict(utide, rng, dict(case, pconstit="-", psnr="-", ppe="-"), coef, two, info)]
    return ev


def run(ck):
    rng = np.random.default_rng(ck.seed)
    ck.mc("MC_Config", "MC_Config.cfg", workers=1)
    for m, inv in (("forgets", "Repeats"), ("otherdefault", "Repeats"), ("fillsarg", "Untouched"), ("respells", "Records")):
        ck.mc("MC_Config", f"MC_Config_{m}.cfg", expect_violation=inv, workers=1)
    cases = ck.gen("Gen_Config", "Gen_Config.cfg", num=ck.scale(1200, 15000), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    can = []
    for e in evs[::60]:
        if not e["err"] and not e["err2"]:
            can.append(dict(e, rec=dict(e["rec"], phase="?")))
            can.append(dict(e, rec={k: v for k, v in e["rec"].items() if k != "infer"}))
            can.append(dict(e, diff=11))
            can.append(dict(e, pred=[dict(e["pred"][0], echo=dict(e["pred"][0]["echo"], min_SNR="1")), e["pred"][1]]))
            can.append(dict(e, pred=[e["pred"][0], dict(e["pred"][1], fields=e["pred"][1]["fields"] + ["x"])]))
    for b in ck.judge("Trace_Config", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::200]:
        ck.sample(dict(given=e["given"], rec=e["rec"]))
