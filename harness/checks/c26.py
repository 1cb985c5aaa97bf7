"""C26: published tables (Tide.tla; Trace_Tables.tla)."""
import numpy as np
import core, tidecommon as tc
from c07 import limbs


def f64(x):
    return float(np.ma.filled(np.ma.asarray(x, dtype=float), np.nan))


def tables(case):
    import utide, copy
    try:
        u = utide.ut_constants
        c, sat, sh = u.const, u.sat, u.shallow
        names = [str(n) for n in c.name]
        evs = [dict(k="all", ok=True, err="", names=names, index=[str(k) for k in utide.constit_index_dict], cph=[str(k) for k in utide.cycles_per_hour],
                    hpc=[str(k) for k in utide.hours_per_cycle])]
        for i, n in enumerate(names):
            comp = bool(np.isfinite(f64(c.ishallow[i])))
            parents = []
            if comp:
                k = int(c.ishallow[i]) - 1
                for a, b, own in zip(sh.iname[k:k + int(c.nshallow[i])], sh.coef[k:k + int(c.nshallow[i])], sh.iconst[k:k + int(c.nshallow[i])]):
                    a = int(a)
                    parents.append(dict(c2=int(round(2 * float(b))), f=limbs(c.freq[a - 1]), compound=bool(np.isfinite(f64(c.ishallow[a - 1]))) or int(own) != i + 1))
            d = [f64(x) for x in c.doodson[i]]
            m = np.nonzero(np.asarray(sat.iconst, int) == i + 1)[0]
            if np.isfinite(f64(c.isat[i])):
                satok = len(m) == int(c.nsat[i]) and len(m) > 0 and int(m[0]) == int(c.isat[i]) - 1 and int(m[-1]) - int(m[0]) == len(m) - 1
            else:
                satok = len(m) == 0
            kk = f64(c.ikmpr[i])
            has = np.isfinite(kk) and kk > 0
            evs.append(dict(k="one", ok=True, err="", i=i + 1, name=n, at=int(utide.constit_index_dict[n]) + 1, f=limbs(c.freq[i]), cph=limbs(utide.cycles_per_hour[n]),
                            attr=limbs(getattr(utide.cycles_per_hour, n)), hpc=core.flt(utide.hours_per_cycle[n]), compound=comp, parents=parents,
                            dood=[int(x) for x in d] if np.isfinite(d).all() else [], satsOk=bool(satok),
                            df=limbs(c.df[i]) if has and f64(c.df[i]) > 0 else [0, 0, 0, 0], fk=limbs(c.freq[int(kk) - 1]) if has else [0, 0, 0, 0]))
        return evs
    except Exception as e:
        return [dict(k="all", ok=False, err=repr(e)[:200])]


def one(case):
    import utide
    rng = np.random.default_rng(case["seed"])
    ev = dict(k="sol", ok=True, err="", id=case["id"])
    try:
        day = int(tc.random_day(rng))
        half = int(rng.integers(2, 60)) * 1024
        k = np.sort(rng.choice(np.arange(1, 2 * half), 200, replace=False)) if case["samp"] != "regular" else np.arange(half // 64, 2 * half, half // 64)
        k = np.concatenate([[0], k, [2 * half]])
        t = tc.inst([day, 0]) + k / 1024
        n = len(tc.NAMES) if case["id"] % 3 == 0 else int(rng.integers(1, 60))
        names = [tc.NAMES[i] for i in rng.permutation(len(tc.NAMES))[:n]]
        o = dict(constit="auto" if case["constit"] == "auto" else names, conf_int="none", trend=case["trend"], phase=case["phase"], nodal=tc.NODAL[case["nodal"]], epoch="python",
                 verbose=False, order_constit=str(rng.choice(["frequency", "PE"])))
        inf = tc.make_infer(rng, case, names, case["two"])
        if inf:
            o["infer"] = inf
        x = rng.standard_normal(len(t))
        c = utide.solve(t, x, x[::-1].copy() if case["two"] else None, lat=tc.pick_lat(rng, case["lat"]), **o)
        ev.update(names=[str(x) for x in c["name"]], frq=[limbs(x) for x in c["aux"]["frq"]], t0=tc.tick(day, half))
    except Exception as e:
        import traceback
        ev.update(ok=False, err=repr(e)[:200], tb=traceback.format_exc()[-700:])
    return ev


def run(ck):
    ck.mc("MC_Tide", "MC_Tide.cfg", workers=4)
    rng = np.random.default_rng(ck.seed)
    cases = ck.gen("Gen_Law", "Gen_Law_Pre.cfg", num=ck.scale(200, 4000), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    tab = core.pmap(tables, [0])[0]
    evs = tab + core.pmap(one, cases)
    can = []
    if all(e["ok"] for e in tab):
        for e in tab[1::13]:
            can += [dict(e, at=e["at"] + 1), dict(e, cph=[e["f"][0], e["f"][1], e["f"][2] + 1, e["f"][3]])]
            if e["compound"]:
                can.append(dict(e, parents=[dict(e["parents"][0], c2=e["parents"][0]["c2"] + 2)] + e["parents"][1:]))
            elif e["i"] > 1:
                can.append(dict(e, dood=[e["dood"][0], e["dood"][1] + 1] + e["dood"][2:]))
        can.append(dict(tab[0], index=tab[0]["index"][1:]))
    for e in evs[len(tab)::25]:
        if e["ok"] and len(e["names"]) > 1:
            can.append(dict(e, frq=e["frq"][1:] + e["frq"][:1]))
            can.append(dict(e, t0=[e["t0"][0] + 30000, 0]))
    for b in ck.judge("Trace_Tables", evs, canary=can):
        ck.violation("; ".join(b["why"])[:400], evs[b["i"]])
    ck.sample(tab[min(48, len(tab) - 1)])
    for e in evs[len(tab)::80]:
        ck.sample(e)
    ck.extra["constituents_checked"] = sum(e["k"] == "one" for e in tab)
