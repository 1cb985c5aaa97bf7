"""C20: Bunch as an abstract data type (BunchSpec.tla, MC_Bunch.tla): histories generated by TLC are replayed on the real class and
the monitor Trace_Bunch.tla follows them."""
import copy, os, pickle, tempfile
import numpy as np
import core

KEY = dict(k7=7, kSpace="a key", kTuple=("b", 1), kA="alpha", kB="beta_2", kC="g", kT="t_mpl")
IDENT = ("kA", "kB", "kC", "kT")
LONG = "x" * 55 + " end"
LINES = "one\n  two\n\n\tthree\n"
SOURCE = dict(none="None", v0="0", vEmpty="''", vFalse="False", vList="[x for x in range(0)]", v1="1", v2="'two words'", vLong="'x' * 55 + ' end'", vLines='"""' + LINES + '"""',
              vArr="__import__('numpy').array([[1.5, 2.5],\n  [3.5, -4.5]])", vBunch="__import__('utide.utilities').utilities.Bunch(z=9)")


def values():
    from utide.utilities import Bunch
    return dict(none=None, v0=0, vEmpty="", vFalse=False, vList=[], v1=1, v2="two words", vLong=LONG, vLines=LINES, vArr=np.array([[1.5, 2.5], [3.5, -4.5]]), vBunch=Bunch(z=9))


def tok(x, V):
    """The token of a value (by type and content: copies made by pickling count as the value)."""
    if x is None:
        return "none"
    if isinstance(x, np.ndarray):
        return "vArr" if x.shape == (2, 2) and (x == V["vArr"]).all() else "?"
    if isinstance(x, dict):
        return "vBunch" if type(x).__name__ == "Bunch" and dict(x) == {"z": 9} else "?"
    for t in ("v0", "vEmpty", "vFalse", "vList", "v1", "v2", "vLong", "vLines"):
        if type(x) is type(V[t]) and x == V[t]:
            return t
    return "?" + repr(x)[:40]


TOK = {v: k for k, v in KEY.items()}


def pairs(b, V):
    return [[TOK.get(k, "?" + repr(k)), tok(v, V)] for k, v in b.items()]


def seen(b, V):
    attrs = []
    for k in dict.keys(b):
        if TOK.get(k) in IDENT:
            try:
                attrs.append([TOK[k], tok(getattr(b, k), V)])
            except Exception as e:
                attrs.append([TOK[k], type(e).__name__])
    other = sorted(map(str, getattr(b, "__dict__", {})))
    return dict(items=pairs(b, V), attrs=attrs, len=len(b), eqdict=list(b) == list(b.keys()) and len(b.values()) == len(b) and not other and bool(b) == (len(b) > 0),
                isbunch=type(b).__name__ == "Bunch" and isinstance(b, dict))


def shown(text, b, V):
    """The items a printed text shows, in the order of the text: each is the key and, after it, the value."""
    hits = []
    for k, v in b.items():
        i = -1
        while True:
            i = text.find(str(k), i + 1)
            if i < 0:
                break
            if i > 0 and text[i - 1] not in "\n;":
                continue
            j = i + len(str(k))
            rest = text[j:].lstrip(" :=")
            if rest.startswith(str(v)):
                hits.append((i, [TOK.get(k, "?"), tok(v, V)]))
                break
    return [h for _, h in sorted(hits, key=lambda h: h[0])]


def arg_forms(o, V, Bunch):
    """Positional and keyword arguments standing for the pairs o['ps'] (later ones win)."""
    ps = [(KEY[k], V[v]) for k, v in o["ps"]]
    f = o["form"]
    if f == "dict" or not ps:
        return [dict(ps)], {}
    if f == "bunch":
        return [Bunch(ps)], {}
    if f == "pairs":
        return [ps], {}
    if f == "kw":
        return [], dict((k, v) for k, v in ps)
    if f == "mixed" and TOK[ps[-1][0]] in IDENT:
        return [dict(ps[:-1])], {ps[-1][0]: ps[-1][1]}
    return [[p] for p in ps], {}


def replay(case):
    from utide.utilities import Bunch
    import warnings
    warnings.simplefilter("ignore")
    V = values()
    s = [Bunch(), Bunch()]
    evs = []
    for o in case["ops"]:
        i, j = o["i"] - 1, o["j"] - 1
        b, k, v = s[i], KEY[o["key"]], V[o["val"]]
        ev = dict(o=o, c="ok", v="", shown=[], shown2=[])
        try:
            op = o["op"]
            if op == "setitem":
                b[k] = v
            elif op == "setattr":
                setattr(b, k, v)
            elif op == "getitem":
                ev["v"] = tok(b[k], V)
            elif op == "getattr":
                ev["v"] = tok(getattr(b, k), V)
            elif op == "hasattr":
                ev["v"] = "true" if hasattr(b, k) else "false"
            elif op == "contains":
                ev["v"] = "true" if k in b else "false"
            elif op == "get":
                ev["v"] = tok(b.get(k), V)
            elif op == "getattrdef":
                ev["v"] = tok(getattr(b, k, v), V)
            elif op == "delitem":
                del b[k]
            elif op == "pop":
                ev["v"] = tok(b.pop(k), V)
            elif op == "setdefault":
                ev["v"] = tok(b.setdefault(k, v), V)
            elif op == "clear":
                b.clear()
            elif op == "print":
                ev["shown"] = shown(str(b), b, V)
                ev["shown2"] = shown(b.formatted(fmt="{0!s}={1!s};\n"), b, V)
                t = b.formatted(types=True)
                if sum(type(x).__name__ in t for x in b.values()) != len(b):
                    ev["shown2"] = []
            elif op == "pyfile":
                with tempfile.TemporaryDirectory(prefix="c20-") as d:
                    fn = os.path.join(d, "x.py")
                    text = ["# a comment\n" if o["j"] else ""] + [f"{KEY[x]} = {SOURCE[y]}" + ("  # said\n\n" if n % 2 else "\n") for n, (x, y) in enumerate(o["ps"])]
                    if o["strict"]:
                        text.append("not_there + 1")
                    elif len(text) > 1 and o["how"] == "copy":
                        text[-1] = text[-1].rstrip()
                    with open(fn, "w") as f:
                        f.write("".join(text))
                    if b.from_pyfile(fn) is not b:
                        ev["v"] = "another object"
            elif op == "new":
                a, kw = arg_forms(o, V, Bunch)
                s[i] = Bunch(*a, **kw)
            elif op in ("update", "values", "nones"):
                a, kw = arg_forms(o, V, Bunch)
                if op == "update":
                    if len(a) > 1:
                        a = [sum(a, [])]
                    b.update(*a, **kw)
                else:
                    if o["strict"]:
                        kw = dict(kw, strict=True)
                    elif len(o["ps"]) == 2:
                        kw = dict(kw, strict=False)
                    (b.update_values if op == "values" else b.update_None)(*a, **kw)
            elif op == "dup":
                h = o["how"]
                if h == "copy":
                    c = copy.copy(b)
                elif h == "deepcopy":
                    c = copy.deepcopy(b)
                elif h == "pickle":
                    c = pickle.loads(pickle.dumps(b, protocol=len(o["ps"]) + 2 if o["strict"] else 0))
                elif h == "Bunch":
                    c = Bunch(b)
                elif h == "dictcopy":
                    c = Bunch(b.copy())
                elif h == "kwargs":
                    c = Bunch(**{x: y for x, y in b.items() if TOK.get(x) in IDENT})
                else:
                    c = Bunch()
                    c.update(b)
                s[j] = c
        except Exception as e:
            ev["c"] = core.status_of(e)
        ev["b"] = [seen(x, V) for x in s]
        evs.append(ev)
    return evs


def run(ck):
    ck.mc("MC_Bunch", "MC_Bunch.cfg" if ck.quick else "MC_Bunch_deep.cfg")
    for m, inv in (("adds", "NoNewKeys"), ("partial", "FailuresChangeNothing"), ("overwrites", "OnlyNone")):
        ck.mc("MC_Bunch", f"MC_Bunch_{m}.cfg", expect_violation=inv)
    cases = ck.gen("Gen_Bunch", "Gen_Bunch.cfg", num=ck.scale(900, 12000), depth=60)
    sess = core.pmap(replay, [dict(ops=c) for c in cases])
    can = []
    for s in sess[::60]:
        k = next((n for n, e in enumerate(s) if e["o"]["op"] == "setitem"), None)
        if k is not None:
            bad = [dict(e) for e in s]
            bad[k] = dict(bad[k], b=[dict(x, items=x["items"][:-1]) for x in bad[k]["b"]])
            can.append(bad)
        k = next((n for n, e in enumerate(s) if e["c"] == "KeyError"), None)
        if k is not None:
            bad = [dict(e) for e in s]
            bad[k] = dict(bad[k], c="ok")
            can.append(bad)
    seen_ = set()
    for b in ck.judge("Trace_Bunch", None, sessions=sess, canary=can):
        if b["i"] not in seen_:
            seen_.add(b["i"])
            ck.violation("; ".join(b["why"]), dict(history=cases[b["i"]], at=b["j"], event=sess[b["i"]][b["j"]]))
    for c in cases[::200]:
        ck.sample(dict(first_operations=c[:4]))
    ops = {}
    for s in sess:
        for e in s:
            ops[e["o"]["op"] + ":" + e["c"]] = ops.get(e["o"]["op"] + ":" + e["c"], 0) + 1
    ck.extra["operations"] = ops
