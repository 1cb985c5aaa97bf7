"""C05: representation of time (Calendar.tla)."""
import datetime as dtm
import numpy as np
import core, tidecommon as tc

Z = np.datetime64("0000-12-31T00:00:00.000", "ms")
MS = 86400000


def civil(ms):
    """Fields of an instant (ms since 0000-12-31), from numpy's own calendar; only used to describe what is supplied."""
    d = Z + np.timedelta64(int(ms), "ms")
    day = d.astype("datetime64[D]")
    y = int(day.astype("datetime64[Y]").astype(int)) + 1970
    mo = int(day.astype("datetime64[M]").astype(int)) % 12 + 1
    dd = int((day - day.astype("datetime64[M]")).astype(int)) + 1
    return [y, mo, dd, int((d - day.astype("datetime64[ms]")).astype(int))]


def pyd(c):
    ms = c[3]
    return dtm.datetime(c[0], c[1], c[2], ms // 3600000, ms // 60000 % 60, ms // 1000 % 60, ms % 1000 * 1000)


def start_ms(rng, year, tod, step):
    y = {"modern": lambda: rng.integers(1950, 2050), "century": lambda: rng.choice([1700, 1800, 1900, 2000, 2100, 2400]),
         "leapday": lambda: rng.choice([1904, 1972, 2000, 2020, 2024]), "unix": lambda: rng.choice([1969, 1970]), "old": lambda: rng.integers(1600, 1900),
         "first": lambda: rng.choice([1, 2, 4, 5, 100]), "remote": lambda: rng.choice([-400, -4, 0, 3000, 5003, 9000]), "yearend": lambda: rng.integers(1900, 2100)}[year]()
    y = int(y)
    doy = {"leapday": 58, "yearend": 363, "century": 57, "unix": 364}.get(year, int(rng.integers(0, 365)))
    d = (np.datetime64(f"{y:05d}-01-01" if y < 0 else f"{y:04d}-01-01") - Z.astype("datetime64[D]")).astype(int) + doy
    t = {"midnight": 0, "noon": MS // 2, "ms": int(rng.integers(0, MS)), "lastms": MS - 1, "hour": 3600000 * int(rng.integers(0, 24))}[tod]
    return int(d) * MS + (t // step) * step, y


def epoch_of(rng, kind, eyear, y):
    """(what the caller passes, epoch for the specification, ms since 0000-12-31)."""
    if kind == "python":
        return "python", dict(k="python"), 0
    if kind == "matlab":
        return "matlab", dict(k="matlab"), -366 * MS
    yy = int({"modern": rng.integers(1950, 2040), "old": rng.integers(1600, 1950), "unix": 1970, "after": max(2, min(y + 1, 9990)), "first": 1}[eyear])
    mo, d = int(rng.integers(1, 13)), int(rng.integers(1, 29))
    ms = {"isodate": 0, "date": 0, "isotime": int(rng.integers(0, 86400)) * 1000, "isoT": int(rng.integers(0, 86400)) * 1000}.get(kind, int(rng.integers(0, MS)))
    c = [yy, mo, d, ms]
    p = pyd(c)
    iso = f"{yy:04d}-{mo:02d}-{d:02d}"
    clock = f"{p.hour:02d}:{p.minute:02d}:{p.second:02d}"
    import pandas as pd
    val = {"isodate": iso, "isotime": iso + " " + clock, "isoT": iso + "T" + clock, "isoms": f"{iso} {clock}.{ms % 1000:03d}",
           "date": p.date(), "datetime": p, "dt64": np.datetime64(p, "ms"), "ts": pd.Timestamp(p) if yy > 1700 else p}[kind]
    off = int((np.datetime64(p, "ms") - Z).astype(int))
    return val, dict(k="civil", c=c), off


STEP = {"D": MS, "h": 3600000, "m": 60000, "s": 1000, "int": MS}


def one(case):
    import utide
    import pandas as pd
    rng = np.random.default_rng(case["seed"])
    two = case["two"]
    ev = dict(ok=True, err="", id=case["id"], reps=[])
    try:
        forms = [case["form1"], case["form2"], case["form3"]]
        eps = [epoch_of(rng, case[f"ep{i}"], case["eyear"], 2000) for i in (1, 2, 3)]
        step = max([STEP.get(f, 1) for f in forms])
        if "int" in forms:                        # whole days since the epoch: it must be at midnight
            eps = [e if e[2] % MS == 0 else epoch_of(rng, "isodate", case["eyear"], 2000) for e in eps]
        at = 0
        if "int" in forms and step == MS and not any(STEP.get(f, 1) > 1 for f in forms if f != "int") and rng.random() < 0.7:
            e = epoch_of(rng, str(rng.choice(["isotime", "datetime", "dt64", "ts"])), case["eyear"], 2000)
            eps = [e if f == "int" else x for f, x in zip(forms, eps)]
            at = e[2] % MS                        # or all the times are whole days from it
        ms0, y = start_ms(rng, case["year"], case["tod"], step)
        n = 220
        dt = MS if step == MS else int(rng.choice([3600000, 5400000, 7200000])) if step == 3600000 or step < 60000 else 3660000
        if step == 3600000:
            dt = 3600000 * int(rng.integers(1, 3))
        dt = max(step, dt // step * step)
        ms = ms0 + at + np.arange(n) * dt
        irregular = rng.random() < 0.5
        if irregular:
            ms = ms + rng.integers(0, max(1, dt // step // 3), n) * step
        names = ["MM", "MF"] if dt == MS else list(tc.GROUPS[int(rng.integers(0, 2))])
        days = ms / MS
        import refmodel as rm
        A, g = rng.uniform(0.3, 1, len(names)), rng.uniform(0, 360, len(names))
        lat = round(float(rng.uniform(-80, 80)), 2)
        mk = lambda: rm.predict_scalar(names, A, g, 0.4, 0.01, days, days.mean(), lat, "Greenwich", "exact") + 0.1 * rng.standard_normal(n)
        u = mk()
        v = mk() if two else None
        miss = np.zeros(n, bool)
        if case["missing"] == "some":
            miss[rng.integers(5, n - 5, 6)] = True
        pick = sorted(set([0, n - 1] + [int(x) for x in rng.integers(0, n, 12)]))
        pick = [i for i in pick if not miss[i]]
        D = Z + ms.astype("timedelta64[ms]")
        for f, (epv, eps_, off) in zip(forms, eps):
            if f == "ns" and not 1680 < y < 2260:
                f = "us"
            if f in ("datetime", "objarray", "timestamps") and not 1 <= y < 9000:
                f = "ms"
            if f == "timestamps" and not 1680 < y < 2260:
                f = "datetime"
            if f in ("index", "pdseries") and not 1 <= y < 9000:
                f = "ms"
            cal = f not in ("float", "floatlist", "floatseries", "int")
            if cal:
                epv, eps_ = None, dict(k="none")
                val = lambda m: civil(m)
                if f in ("D", "h", "m", "s", "ms", "us", "ns"):
                    t = D.astype(f"datetime64[{f}]")
                    if f in ("us", "ns"):        # digits below the millisecond
                        t = t + rng.integers(0, 2, n) * np.timedelta64(1, f)
                    t[miss] = np.datetime64("NaT")
                elif f in ("datetime", "objarray"):
                    t = [pyd(civil(m)) for m in ms]
                    if f == "objarray":
                        t = np.array(t, dtype=object)
                elif f == "timestamps":
                    t = [pd.Timestamp(pyd(civil(m))) for m in ms]
                elif f in ("index", "pdseries"):
                    x = D.copy()
                    x[miss] = np.datetime64("NaT")
                    t = pd.DatetimeIndex(x) if f == "index" else pd.Series(x)
                if f in ("datetime", "objarray", "timestamps"):
                    hm = np.zeros(n, bool)
                else:
                    hm = miss
            else:
                rel = ms - off
                val = lambda m, off=off: [int((m - off) // MS), int((m - off) % MS)]
                if f == "int":
                    t = rel // MS
                    t = list(map(int, t)) if rng.random() < 0.3 else t.astype(["int64", "int32"][int(rng.integers(2))])
                    hm = np.zeros(n, bool)
                else:
                    t = rel / MS
                    t[miss] = np.nan
                    hm = miss
                    t = list(t) if f == "floatlist" else pd.Series(t) if f == "floatseries" else t
            uu = u.copy()
            vv = v.copy() if two else None
            uu[miss] = np.nan
            if f in ("datetime", "objarray", "timestamps", "int") and miss.any():
                # no missing marker in this form: leave the samples out
                t = [t[i] for i in range(n) if not miss[i]] if isinstance(t, list) else t[~miss]
                uu = uu[~miss]
                vv = vv[~miss] if two else None
                sel = np.cumsum(~miss) - 1
            else:
                sel = np.arange(n)
            o = dict(constit=names, conf_int="none", trend=case["trend"], phase=case["phase"], nodal=tc.NODAL[case["nodal"]], verbose=False,
                     order_constit="frequency")
            coef = utide.solve(t, uu, vv, lat=lat, epoch=epv, **o)
            r = utide.reconstruct(t, coef, epoch=epv, verbose=False)
            mpl = np.asarray(np.ma.filled(np.ma.asarray(r.t_mpl, dtype=float), np.nan), float)
            two_ms = lambda x: [int(np.floor(x)), int(round((x - np.floor(x)) * MS))]
            out = np.concatenate([r.u[sel[pick]], r.v[sel[pick]]]) if two else r.h[sel[pick]]
            ok = np.nonzero(~miss)[0]
            ev["reps"].append(dict(form=f + ("" if cal else f"/{case['ep1'] if eps_ is eps[0][1] else case['ep2'] if eps_ is eps[1][1] else case['ep3']}"),
                                   ep=eps_, val=[val(int(ms[i])) for i in pick], mpl=[two_ms(mpl[sel[i]]) for i in pick],
                                   ends=[val(int(ms[ok[0]])), val(int(ms[ok[-1]]))], ref=two_ms(float(coef["aux"]["reftime"])),
                                   obs=tc.observe(coef, 1.0, days[-1] - days[0]), h=core.quants(out, 1e8)))
    except Exception as e:
        import traceback
        ev.update(ok=False, err=repr(e)[:200], tb=traceback.format_exc()[-800:])
    return ev


def run(ck):
    ck.mc("MC_Calendar", "MC_Calendar.cfg" if ck.quick else "MC_Calendar_deep.cfg", workers=1)
    rng = np.random.default_rng(ck.seed)
    cases = ck.gen("Gen_Calendar", "Gen_Calendar.cfg", num=ck.scale(600, 9000), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    can = []
    for e in evs[::50]:
        if e["ok"]:
            r = e["reps"]
            can.append(dict(e, reps=[r[0], dict(r[1], mpl=[[x[0], x[1] + 2] for x in r[1]["mpl"]]), r[2]]))
            can.append(dict(e, reps=[r[0], dict(r[1], ref=[r[1]["ref"][0] + 1, r[1]["ref"][1]]), r[2]]))
    for b in ck.judge("Trace_Calendar", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::120]:
        ck.sample(dict(case=c, reps=[dict(form=r["form"], ep=r["ep"], val=r["val"][:2], mpl=r["mpl"][:2]) for r in e["reps"]]))
