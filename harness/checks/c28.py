"""C28: what is loaded mirrors what was saved (Load.tla)."""
import os, tempfile
import numpy as np
import core

CODE = {9001: np.nan, 9002: np.inf, 9003: -np.inf}


def saved(v, form):
    if v["t"] == "st":
        return {f["n"]: saved(f["v"], form) for f in v["f"]}
    if v["t"] == "num":
        x = np.array([CODE.get(y, y) if v["k"] == "f" else y for y in v["x"]], {"f": ("f8", "f4")[v["w"]], "i": ("i4", "i2")[v["w"]], "c": ("c16", "c8")[v["w"]], "b": "?"}[v["k"]])
        if v["k"] == "c":
            x = (x + 0.5j * np.arange(1, len(x) + 1)).astype(x.dtype)
        return x.reshape(v["s"])
    if v["t"] == "str":
        return v["x"]
    if v["t"] == "strs":
        return np.array(v["x"])
    c = np.empty(len(v["x"]), dtype=object)
    c[:] = v["x"]
    return c


def plain(v, form):
    """The tree as it is to be compared: npz files hold no structures or cells here."""
    f = []
    for x in v["f"]:
        y = x["v"]
        if form == "npz" and y["t"] in ("st", "cell"):
            continue
        if y["t"] == "st":
            y = plain(y, form)
        elif y["t"] in ("strs", "cell") and (len(y["x"]) > 1 or y["t"] == "cell"):
            y = dict(y, x=[s.rstrip() for s in y["x"]])
        f.append(dict(n=x["n"], v=y))
    return dict(v, f=f)


def code(y):
    return 9001 if np.isnan(y) else 9002 if y == np.inf else 9003 if y == -np.inf else int(y)


def seen(x, v):
    """The observed tree; v: what was saved there."""
    from utide.utilities import Bunch
    if isinstance(x, dict):
        at = {f["n"]: f["v"] for f in v.get("f", [])}
        return dict(t="st" if type(x) is Bunch else "dict", f=[dict(n=str(k), v=seen(y, at.get(k, {}))) for k, y in x.items()])
    if isinstance(x, str):
        return dict(t="str", x=x)
    if v.get("k") == "b" and type(x) in (int, bool):
        return dict(t="one", k="b", x=int(x))
    if type(x) in (int, float, complex):
        k = {int: "i", float: "f", complex: "c"}[type(x)]
        if k == "c":
            return dict(t="one", k=k, x=int(x.real) if x.imag == 0.5 else -5000)
        return dict(t="one", k=k, x=code(x))
    if not isinstance(x, np.ndarray):
        return dict(t=type(x).__name__, x="")
    if x.dtype.kind == "U":
        if x.ndim != 1:
            return dict(t="strs?", x="")
        return dict(t="cell1" if x.size == 1 else "strs", x=[str(s).rstrip() for s in x])
    if x.dtype.kind == "O":
        if all(isinstance(s, np.ndarray) and s.dtype.kind == "U" and s.size == 1 for s in x.ravel()) and x.ndim == 1:
            return dict(t="cell", x=[s.item().rstrip() for s in x])
        if all(isinstance(s, str) for s in x.ravel()) and x.ndim == 1:
            return dict(t="objs", x=[s.rstrip() if v.get("t") == "cell" and len(v["x"]) > 1 else s for s in x])
        return dict(t="object?", x="")
    m = np.ma.getmaskarray(x).ravel()
    d = np.where(m, 0, np.ma.getdata(x).ravel())
    k = {"f": "f", "i": "i", "u": "i", "c": "c"}.get(x.dtype.kind, "?")
    if v.get("k") == "b" and x.dtype.kind in "bu":
        k = "b"
    if k == "c":
        ok = (d.imag == 0.5 * np.arange(1, d.size + 1)) | m
        d = np.where(ok, d.real, -5000)
    return dict(t="arr", k=k, s=list(x.shape), x=[code(y) for y in d], m=[int(i) + 1 for i in np.flatnonzero(m)], isma=bool(np.ma.isMA(x)))


def one(case):
    from scipy.io import savemat
    from utide.utilities import convert_unicode_arrays, loadbunch, showmatbunch
    import session
    form = case["form"]
    tree = plain(case["tree"], form)
    if not tree["f"]:
        return None
    ev = dict(ok=True, err="", id=case["id"], tree=tree, masked=case["masked"], got={}, conv={}, kept=True, shown=[], sorted=True, again=True, other="")
    raw = dict(case["tree"], f=[f for f in case["tree"]["f"] if form != "npz" or f["v"]["t"] not in ("st", "cell")])
    try:
        with tempfile.TemporaryDirectory(prefix="c28-") as d:
            fn = os.path.join(d, "x." + form)
            x = saved(raw, form)
            if form == "mat":
                savemat(fn, x, long_field_names=True, oned_as=("row", "column")[case["id"] % 2])
            else:
                np.savez(fn, **x)
            b = loadbunch(fn, masked=case["masked"]) if case["id"] % 3 or not case["masked"] else loadbunch(fn)
            ev["again"] = form == "npz" or showmatbunch(fn) == showmatbunch(loadbunch(fn))
            try:
                os.rename(fn, fn + "x")
                loadbunch(fn + "x")
                ev["other"] = "result"
            except Exception as e:
                ev["other"] = core.status_of(e)
        ev["got"] = seen(b, tree)
        before = session.digest(b)
        ev["conv"] = seen(convert_unicode_arrays(b), tree)
        ev["kept"] = session.digest(b) == before
        ev["shown"] = [l.split(" : ")[0].rstrip() for l in showmatbunch(b).splitlines()]
        ev["sorted"] = ev["shown"] == sorted(ev["shown"])
    except Exception as e:
        import traceback
        ev.update(ok=False, err=repr(e)[:200], tb=traceback.format_exc()[-500:])
    return ev


def run(ck):
    ck.mc("MC_Load", "MC_Load.cfg", workers=8)
    for n, inv in (("maskall", "Mirrors"), ("keepdims", "Mirrors"), ("shortnames", "SameLeaves")):
        ck.mc("MC_Load", f"MC_Load_{n}.cfg", expect_violation=inv)
    cases = ck.gen("Gen_Load", "Gen_Load.cfg", num=ck.scale(1500, 20000), depth=5)
    for i, c in enumerate(cases):
        c["id"] = i
    evs = core.pmap(one, cases)
    cases, evs = zip(*[(c, e) for c, e in zip(cases, evs) if e is not None])
    can = []
    for e in evs[::100]:
        if e["ok"]:
            can += [dict(e, kept=False), dict(e, shown=e["shown"][1:]), dict(e, got=dict(e["got"], f=e["got"]["f"][1:])), dict(e, masked=e["masked"], conv=dict(e["conv"], t="dict"))]
    for b in ck.judge("Trace_Load", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e in evs[::300]:
        ck.sample(e["shown"])
    ck.extra["forms"] = {f: sum(c["form"] == f for c in cases) for f in ("mat", "npz")}
    ck.assumptions.append("structure arrays and character matrices are not generated")
