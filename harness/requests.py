"""Concrete requests to solve() for generated abstract ones (spec/Request.tla)."""
import datetime
import numpy as np
import tidecommon as tc
from c05 import pyd, civil, Z

MS = 86400000


def time_form(days, form, miss=None):
    """Times (multiples of 1/1024 day) in the given form -> (t, epoch)."""
    import pandas as pd
    n = len(days)
    ms = np.round(days * MS).astype("int64")
    if form in ("array", "list", "tuple", "series", "masked"):
        t = days.copy()
        if form == "masked":
            m = np.zeros(n, bool)
            if miss is not None:
                m |= miss
            odd = m & (np.arange(n) % 2 == 1)              # marked by NaN instead of by the mask
            t[odd] = np.nan
            t = np.ma.array(t, mask=m & ~odd)
        return {"list": list, "tuple": tuple, "series": pd.Series}.get(form, lambda x: x)(t), "python"
    d = Z + ms.astype("timedelta64[ms]")
    if form == "dt64":
        return d, None
    if form == "index":
        return pd.DatetimeIndex(d), None
    p = [pyd(civil(m)) for m in ms]
    return (np.array(p, dtype=object) if form == "datetime" else p), None


def data_form(x, form, miss):
    import pandas as pd
    x = x.copy()
    if form == "int":
        return np.ma.array(np.round(x).astype(int), mask=miss) if miss.any() else np.round(x).astype(int)
    if form == "masked":
        odd = miss & (np.arange(len(x)) % 2 == 1)          # marked by NaN instead of by the mask
        x[miss] = 1e20
        x[odd] = np.nan
        return np.ma.array(x, mask=miss & ~odd)
    x[miss] = np.nan
    if form == "float32":
        return x.astype("float32")
    return {"list": list, "tuple": tuple, "series": pd.Series}.get(form, lambda y: y)(x)


def build(rng, case, size=1.0):
    """(args, kwargs, info) of a valid request for `case`."""
    from utide.utilities import Bunch
    two = case["two"]
    n = int(case.get("n", 360))
    samp = case.get("samp", "regular")
    tick = np.arange(n) * 43
    if samp in ("jitter", "gappy"):
        tick = tick + rng.integers(-6, 7, n)
    if samp == "gappy":
        keep = np.ones(n, bool)
        keep[n // 3:n // 3 + int(n * case.get("gap", 1 / 12))] = False
        tick = tick[keep]
        n = len(tick)
    if "warp" in case:                                   # other times between the same first and last one
        tick[1:-1] += np.random.default_rng(case["warp"]).integers(-5, 6, n - 2)
    day0 = int(rng.integers(700000, 760000))
    days = day0 + tick / 1024
    miss = np.zeros(n, bool)
    if samp == "nangaps" or "masked" in (case.get("uform"),):
        miss[rng.integers(3, n - 3, 12)] = True
    names = list(tc.GROUPS[int(case.get("group", rng.integers(0, 3)))])
    import refmodel as rm
    k = len(names)
    A, g = size * rng.uniform(0.3, 1, k), rng.uniform(0, 360, k)
    lat = round(float(rng.uniform(-80, 80)), 2)
    mk = lambda: rm.predict_scalar(names, A, g, 0.4 * size, 0.01 * size, days, days.mean(), lat, "Greenwich", "exact") + 0.15 * size * rng.standard_normal(n)
    u = mk()
    v = mk()[::-1].copy() if two else None
    special = case.get("special")
    if two and special in ("zero", "proportional"):             # no variation across one direction
        v = u * (0.0 if special == "zero" else 0.37)
        if rng.random() < 0.5:
            u, v = v, u
    if special == "spikes":                                      # gross errors
        i = np.arange(n // 15) + int(rng.integers(n - n // 15)) if rng.random() < 0.5 else rng.integers(0, n, n // 15)
        u[i] += 1e3 * size
    tmiss = None
    if case.get("tform") == "masked" and samp != "gappy":
        tmiss = np.zeros(n, bool)
        tmiss[rng.integers(3, n - 3, 5)] = True
    t, ep = time_form(days, case.get("tform", "array"), tmiss)
    uu = data_form(u, case.get("uform", "array"), miss)
    vv = data_form(v, case.get("vform", case.get("uform", "array")), miss) if two else None
    o = dict(verbose=case.get("verbose", False))
    if ep:
        o["epoch"] = ep
    o["phase"] = case.get("phase", "Greenwich")
    o["nodal"] = tc.NODAL[case.get("nodal", "exact")]
    o["conf_int"] = case.get("conf", "none")
    o["trend"] = case.get("trend", True)
    if "white" in case:
        o["white"] = case["white"]
    seq = {"list": list, "tuple": tuple, "array": np.array}
    if case.get("constit", "list") != "auto":
        o["constit"] = seq[case.get("constit", "list")](names)
    inf = tc.make_infer(rng, case, names, two)
    allnames = names + ([x for x in inf["inferred_names"]] if inf else [])
    if inf:
        o["infer"] = Bunch(inf) if case.get("iform") == "Bunch" else inf
    order = case.get("order", "default")
    if order in ("PE", "SNR", "frequency"):
        o["order_constit"] = order
    elif order in seq and case.get("constit", "list") != "auto":
        o["order_constit"] = seq[order]([str(x) for x in rng.permutation(allnames)])
    elif order in seq:
        o["order_constit"] = "PE"
    if case.get("method", "ols") == "robust":
        o["method"] = "robust"
        if "wf" in case:
            o["robust_kw"] = dict(weight_function=case["wf"])
    retained = n - int((miss | (tmiss if tmiss is not None else False)).sum())
    return [t, uu, vv], dict(o, lat=lat), dict(names=allnames, retained=retained, infer=inf, days=days, n=n)
