"""C18, C19, C21: sessions of calls (histories generated by Gen_Session.tla) on the real library, recorded for Trace_Session.tla.

A pool of requests is built once per run.  The outcome of every request alone is taken in a process of its own.  Sessions run in
fresh processes; everything observable is recorded as signatures (values of the documented fields relative to their size)."""
import contextlib, copy, datetime, hashlib, io, multiprocessing as mp, os, pickle, random, sys, threading
import numpy as np
import core, tidecommon as tc, requests as rq

SCALES = {}


# ------------------------------------------------------------------------------------------------ digests
def feed(h, x, seen):
    """Deep content of an argument, types included."""
    import pandas as pd
    if isinstance(x, (np.ndarray, list, dict, tuple)):
        if id(x) in seen:
            h.update(b"again")
            return
        seen[id(x)] = x                              # kept alive, so that no other object takes the address
    if isinstance(x, np.ma.MaskedArray):
        h.update(b"masked" + str(x.fill_value).encode())
        feed(h, np.ma.getdata(x), seen)
        h.update(np.ascontiguousarray(np.ma.getmaskarray(x)).tobytes())
    elif isinstance(x, np.ndarray):
        h.update(f"{type(x).__name__}{x.dtype}{x.shape}{x.flags.writeable}".encode())
        if x.dtype == object:
            for y in x.ravel():
                feed(h, y, seen)
        else:
            h.update(np.ascontiguousarray(x).tobytes())
        if x.base is not None and isinstance(x.base, np.ndarray) and x.base.dtype != object:
            h.update(np.ascontiguousarray(x.base).tobytes())
    elif isinstance(x, (pd.Series, pd.Index)):
        h.update(f"{type(x).__name__}{x.dtype}{x.name}".encode())
        feed(h, np.array(x.values), seen)
        if isinstance(x, pd.Series):
            feed(h, np.array(x.index.values), seen)
    elif isinstance(x, dict):
        h.update(f"{type(x).__name__}{len(x)}".encode())
        for k, v in x.items():
            h.update(repr(k).encode())
            feed(h, v, seen)
    elif isinstance(x, (list, tuple)):
        h.update(f"{type(x).__name__}{len(x)}".encode())
        for y in x:
            feed(h, y, seen)
    elif x is None or isinstance(x, (str, bytes, int, float, complex, bool, np.generic)):
        h.update(f"{type(x).__name__}{x!r}".encode())
    elif hasattr(x, "__dict__"):
        h.update(type(x).__name__.encode())
        feed(h, vars(x), seen)
    else:
        h.update(repr(x).encode())


def digest(x):
    h = hashlib.sha1()
    feed(h, x, {})
    return h.hexdigest()[:16]


def rng_state():
    h = hashlib.sha1()
    s = np.random.get_state()
    h.update(repr((s[0], s[2:])).encode() + s[1].tobytes() + repr(random.getstate()).encode())
    return h.hexdigest()[:16]


def tables():
    """The published tables."""
    import utide
    uc = utide.ut_constants
    h = hashlib.sha1()
    feed(h, uc, {})
    for n in ("constit_index_dict", "cycles_per_hour", "hours_per_cycle"):
        feed(h, getattr(utide, n), {})
    return h.hexdigest()[:16]


# ------------------------------------------------------------------------------------------------ signatures
EST = ("A", "g", "Lsmaj", "Lsmin", "theta", "mean", "umean", "vmean", "slope", "uslope", "vslope", "weights", "nR", "nNR", "nI")
CIS = ("A_ci", "g_ci", "Lsmaj_ci", "Lsmin_ci", "theta_ci")


def field(p, x, est=True):
    x = np.asarray(x, float).ravel()
    f = np.abs(x[np.isfinite(x)])
    m = float(f.max()) if f.size else 0.0
    return dict(p=p, s="", m=core.flt(m), x=core.quants(x / m if m else x, 1e7), est=est)


def signature(kind, r):
    if r is None:
        return []
    if kind == "reconstruct":
        return [field(k, r[k]) for k in ("h", "u", "v") if k in r]
    out = [dict(p="name", s=" ".join(map(str, r["name"])), m=[0, 0], x=[], est=True)]
    out += [field(k, r[k]) for k in EST if k in r]
    out += [field(k, r[k], False) for k in CIS if k in r]
    if "diagn" in r:
        d = r["diagn"]
        out.append(dict(p="diagn.name", s=" ".join(map(str, d["name"])), m=[0, 0], x=[], est=True))
        out += [field("diagn.PE", d["PE"]), field("diagn.SNR", d["SNR"], False)]
    a = r["aux"]
    out += [field("aux.frq", a["frq"]), field("aux.lind", a["lind"])]
    out.append(field("aux.reftime", [float(a["reftime"])]))
    if a["lat"] is not None:
        out.append(field("aux.lat", [float(a["lat"])]))
    if "rf" in r:
        out.append(field("rms", [r["rf"]["rms_resid"]] if "rms_resid" in r["rf"] else []))
    return out


# ------------------------------------------------------------------------------------------------ requests
NUMERIC = ("array", "list", "tuple", "series", "masked")
EPOCHS = [("python", 0), ("matlab", 366), ("1950-01-01", -711858), (datetime.date(1999, 12, 31), -730119), (datetime.datetime(2001, 1, 1, 12), -730486.5), (np.datetime64("1900-01-01"), -693596)]


def shift(t, d):
    """Numeric times plus a number of days, in the form they have."""
    return type(t)(x + d for x in t) if isinstance(t, (list, tuple)) else t + d


def near(rng, lat):
    """Another latitude, often a close one."""
    if lat is None or rng.random() < 0.3:
        return float(rng.uniform(-70, 70))
    return round(lat + float(rng.choice([-1, 1]) * rng.choice([0.5, 0.1, 0.02])), 3)


def pool(rng, cases, faults, n=64):
    """Descriptors of requests: families of solves sharing their data, invalid ones, reconstructions (of earlier solves)."""
    P = []
    nsolve, nbad = n * 36 // 64, n * 8 // 64
    ci = fam = 0
    while len(P) < nsolve:
        c = dict(cases[ci % len(cases)])
        ci += 1
        fam += 1
        c.update(n=int(rng.integers(150, 450)), group=int(rng.choice([0, 1, 2, 3, 7])), data=int(rng.integers(2**31)), gap=float(rng.choice([1 / 12, 0.25, 0.45])))
        if rng.random() < 0.5 and c["tform"] in NUMERIC:
            c["ep"] = int(rng.integers(1, len(EPOCHS)))
        if rng.random() < 0.5:
            c["lat"] = round(float(rng.uniform(-70, 70)), 2)
        if fam % 4 == 1:                                  # band noise of records with a long gap, at any rate
            c.update(conf="linear", white=False, samp="gappy", gap=0.45, n=int(rng.integers(380, 450)), tform="array" if c["tform"] == "masked" else c["tform"])
        elif rng.random() < 0.6:
            c["conf"] = "MC" if rng.random() < 0.4 and c["infer"] == "none" else c["conf"]
        P.append(dict(kind="solve", case=c, fam=fam))
        for _ in range(int(rng.integers(1, 4))):          # the same data, times or place under other options
            o = dict(cases[ci % len(cases)])
            ci += 1
            how = str(rng.choice(["options", "options", "lat", "size", "warp", "warp", "ep"]))
            if how == "options":
                s = dict(c, **{k: o[k] for k in ("trend", "phase", "nodal", "conf", "white", "method", "wf", "order", "constit", "infer", "iform")})
            elif how == "ep":
                s = dict(c, tform="array", ep=int(rng.integers(0, len(EPOCHS))))
            else:
                s = dict(c, **{how: near(rng, c.get("lat")) if how == "lat" else float(rng.choice([0.5, 3.0])) if how == "size" else int(rng.integers(2**31))})
            if s["order"] == "SNR" and s["conf"] == "none" or s["conf"] == "MC" and s["infer"] != "none":
                continue
            P.append(dict(kind="solve", case=s, fam=fam))
    P = P[:nsolve]
    for k in range(nbad):
        b = P[int(rng.integers(nsolve))]
        P.append(dict(kind="solve", case=b["case"], fault=str(faults[int(rng.integers(len(faults)))]), which=int(rng.integers(4)), fseed=int(rng.integers(2**31)), fam=b["fam"]))
    while len(P) < n:
        fam += 1
        p = dict(kind="reconstruct", of=int(rng.integers(nsolve)), seed=int(rng.integers(2**31)), form=str(rng.choice(["array", "list", "masked", "nan", "dt64", "datetime", "index"])),
                 sel=str(rng.choice(["default", "all", "constit", "snr", "pe", "two_dim_time", "bad_epoch"], p=[.2, .2, .2, .15, .15, .05, .05])), ep=int(rng.integers(len(EPOCHS))), fam=fam)
        P.append(p)
        for _ in range(int(rng.integers(0, 3))):          # other times between the same ends, or another solution
            P.append(dict(p, warp=int(rng.integers(2**31))) if rng.random() < 0.6 else dict(p, of=int(rng.integers(nsolve)), sel="all"))
    P = P[:n]
    for p in P:
        if p["kind"] == "solve":
            p["mc"] = p["case"]["conf"] == "MC" or p.get("fault") == "mc_infer"
            p["bypos"] = p["case"]["order"] != "SNR"
        else:
            p["mc"] = p["bypos"] = False
    return P


def build(p, coef=None):
    """New argument objects of a request: (function name, args, kwargs)."""
    if p["kind"] == "solve":
        c = p["case"]
        rng = np.random.default_rng(c["data"])
        args, kw, info = rq.build(rng, c, c.get("size", 1.0))
        if "lat" in c:
            kw["lat"] = c["lat"]
        if c.get("ep") and kw.get("epoch") == "python":
            kw["epoch"], d = EPOCHS[c["ep"]]
            args[0] = shift(args[0], d)
        if c["conf"] == "MC":
            kw["MC_n"] = (12, 30, 200)[c["data"] % 3]
        if c["method"] == "robust" and c["data"] % 3 == 0:
            del kw["robust_kw"]                      # the default
        elif c["method"] == "robust" and c["data"] % 5 == 1:
            kw["robust_kw"]["maxit"] = 2
        if "fault" in p:
            import c06
            frng = np.random.default_rng(p["fseed"])
            c06.spoil(frng, p["fault"], p["which"], args, kw, info, c["two"])
        if not c["two"]:
            args = args[:2]
        return "solve", args, kw
    rng = np.random.default_rng(p["seed"])
    n = int(rng.integers(5, 60))
    base = float(np.ravel(np.asarray(coef["aux"]["reftime"], float))[0])
    days = np.round(base) + np.round(np.sort(rng.uniform(-40, 40, n)) * 1024) / 1024
    if "warp" in p:
        days[1:-1] = np.sort(days[0] + np.round(np.random.default_rng(p["warp"]).uniform(0, 1, n - 2) * 1024 * (days[-1] - days[0])) / 1024)
    if p["form"] in ("masked", "nan"):
        m = rng.random(n) < 0.2
        t, ep = (np.ma.array(np.where(m, 1e20, days), mask=m), "python") if p["form"] == "masked" else (np.where(m, np.nan, days), "python")
    else:
        t, ep = rq.time_form(days, p["form"])
    if ep:
        ep, d = EPOCHS[p["ep"]]
        t = shift(t, d)
    kw = dict(epoch=ep, verbose=False)
    if p["sel"] == "all":
        kw["min_SNR"] = 0
    elif p["sel"] == "snr":
        kw["min_SNR"] = float(rng.choice([5, 50, 1e3]))
    elif p["sel"] == "pe":
        kw["min_PE"] = float(rng.choice([1, 5, 20]))
    elif p["sel"] == "constit":
        nm = [str(x) for x in coef["name"]]
        pick = [nm[i] for i in rng.permutation(len(nm))[:max(1, len(nm) // 2)]]
        kw["constit"] = (list, tuple, np.array)[int(rng.integers(3))](pick)
    elif p["sel"] == "two_dim_time":
        t, kw["epoch"] = np.asarray(days)[:, None], "python"
    elif p["sel"] == "bad_epoch":
        t, kw["epoch"] = days, "nonsense"
    return "reconstruct", [t, coef], kw


def form_array(x, form):
    """The same values in another memory layout."""
    if not isinstance(x, np.ndarray) or x.dtype == object or x.ndim != 1:
        return x
    if isinstance(x, np.ma.MaskedArray):
        return np.ma.array(form_array(np.ma.getdata(x).copy(), form), mask=form_array(np.ma.getmaskarray(x).copy(), form))
    if form == "view":
        b = np.zeros(len(x) + 6, x.dtype)
        b[2:-4] = x
        return b[2:-4]
    if form == "strided":
        b = np.zeros((len(x), 3), x.dtype)
        b[:, 1] = x
        return b[:, 1]
    return x


def deep_arrays(x, f, seen):
    """f on every array reachable through containers."""
    if id(x) in seen:
        return
    seen[id(x)] = x
    if isinstance(x, np.ndarray):
        f(x)
        if isinstance(x, np.ma.MaskedArray):
            deep_arrays(x.mask, f, seen)
    elif isinstance(x, dict):
        for v in list(x.values()):
            deep_arrays(v, f, seen)
    elif isinstance(x, (list, tuple)):
        for v in x:
            deep_arrays(v, f, seen)


def readonly(a):
    try:
        a.flags.writeable = False
    except ValueError:
        pass


def scribble(x, seen):
    """Change everything reachable in place."""
    import pandas as pd
    if id(x) in seen:
        return
    seen[id(x)] = x
    if isinstance(x, np.ndarray):
        if isinstance(x, np.ma.MaskedArray) and np.ma.getmask(x) is not np.ma.nomask:
            scribble(x._mask, seen)
        d = np.ma.getdata(x)
        try:
            d.flags.writeable = True
        except ValueError:
            pass
        if not d.flags.writeable:
            return
        if d.dtype == object:
            d[...] = d.ravel()[:1][0] if d.size else None
        elif d.dtype.kind == "b":
            d[...] = ~d
        elif d.dtype.kind in "mM":
            d[...] = d + np.timedelta64(12345, "m") if d.size else d
        elif d.dtype.kind in "US":
            d[...] = "ZZ"
        elif d.dtype.kind in "iufc":
            d[...] = d * 3 + 41
    elif isinstance(x, pd.Series):
        v = x.to_numpy(copy=False)
        try:
            x.iloc[:] = x.iloc[::-1].to_numpy().copy()
        except Exception:
            pass
        scribble(v, seen)
    elif isinstance(x, dict):
        for k in list(x):
            scribble(x[k], seen)
        for k in list(x):
            v = x[k]
            if isinstance(v, (bool, str)) or v is None:
                x[k] = "scribbled"
            elif isinstance(v, (int, float, np.generic)):
                x[k] = -7
        x["scribbled"] = 1
    elif isinstance(x, list):
        for y in x:
            scribble(y, seen)
        for i, y in enumerate(x):
            if isinstance(y, str):
                x[i] = "ZZ"
            elif isinstance(y, (int, float)):
                x[i] = y * 3 + 41
        x.append("scribbled")
    elif isinstance(x, tuple):
        for y in x:
            scribble(y, seen)


# ------------------------------------------------------------------------------------------------ single calls
def call(fn, args, kw):
    """(class, result) of a call; nothing printed escapes."""
    import utide
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r = getattr(utide, fn)(*args, **kw)
        return "result", r
    except core.CaseTimeout:
        raise
    except Exception as e:
        return core.status_of(e), None


def quiet():
    import warnings
    warnings.simplefilter("ignore")


def fresh_one(a):
    """A request alone in this (fresh) process."""
    i, p, coef, seed, want = a
    quiet()
    fn, args, kw = build(p, pickle.loads(coef) if coef else None)
    np.random.seed(seed)
    random.seed(seed)
    cls, r = call(fn, args, kw)
    return dict(k="fresh", key=f"{i}/{seed}" if p["mc"] else str(i), r=i, mc=p["mc"], bypos=p["bypos"], cls=cls, sig=signature(p["kind"], r), rng1=rng_state() if p["mc"] else ""), \
        (pickle.dumps(r) if want and r is not None else None)


def fork_map(fn, jobs, limit=120):
    """Every job in a process of its own."""
    with mp.get_context("fork").Pool(core.NCPU, initializer=core._init_worker, maxtasksperchild=1) as pl:
        return pl.map(core._call, [(fn, j, limit) for j in jobs], chunksize=1)


SEEDS = (1, 2, 3)


def fresh_all(P, mc_only=False):
    """{key: fresh event}, {solve index: pickled result}."""
    need = {p["of"] for p in P if p["kind"] == "reconstruct"}
    jobs = [(i, p, None, s, s == 1) for i, p in enumerate(P) if p["kind"] == "solve" for s in (SEEDS if p["mc"] else SEEDS[:1])]
    out = fork_map(fresh_one, jobs)
    if any("harness_timeout" in o for o in out if isinstance(o, dict)):
        raise core.MachineryError("a request alone did not finish")
    F = {e["key"]: e for e, _ in out}
    coefs = {j[0]: b for j, (_, b) in zip(jobs, out) if b}
    good = sorted(coefs)
    for p in P:
        if p["kind"] == "reconstruct" and p["of"] not in coefs:
            p["of"] = good[p["of"] % len(good)]
    jobs = [(i, p, coefs[p["of"]], 1, False) for i, p in enumerate(P) if p["kind"] == "reconstruct"]
    F.update({e["key"]: e for e, _ in fork_map(fresh_one, jobs)})
    return F, coefs


# ------------------------------------------------------------------------------------------------ threads
class Schedule:
    """One thread runs at a time; after slice[k] lines of the library's code the next one takes over."""

    def __init__(self, n, slices):
        import utide
        self.root = os.path.dirname(os.path.abspath(utide.__file__)) + os.sep
        self.cv = threading.Condition()
        self.turn, self.alive, self.sl, self.k = 0, [True] * n, slices, 0
        self.left = slices[0]
        self.free = False
        self.switches = 0

    def next_turn(self):
        n = len(self.alive)
        for d in range(1, n + 1):
            j = (self.turn + d) % n
            if self.alive[j]:
                self.switches += j != self.turn
                self.turn = j
                break
        self.k += 1
        self.left = self.sl[self.k % len(self.sl)]
        self.cv.notify_all()

    def wait(self, i):
        while self.turn != i and not self.free:
            if not self.cv.wait(8):
                self.free = True                 # blocked elsewhere: let them all run
                self.cv.notify_all()

    def step(self, i):
        if self.free:
            return
        with self.cv:
            self.left -= 1
            if self.left <= 0:
                self.next_turn()
            self.wait(i)

    def tracer(self, i):
        def local(frame, event, arg):
            if event == "line":
                self.step(i)
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(self.root) else None
        return glob

    def run(self, jobs):
        """jobs: list of (fn, args, kw); results in order."""
        out = [None] * len(jobs)

        def body(i):
            import utide
            with self.cv:
                self.wait(i)
            sys.settrace(self.tracer(i))
            try:
                fn, args, kw = jobs[i]
                try:
                    out[i] = ("result", getattr(utide, fn)(*args, **kw))
                except Exception as e:
                    out[i] = (core.status_of(e), None)
            finally:
                sys.settrace(None)
                with self.cv:
                    self.alive[i] = False
                    if self.turn == i:
                        self.next_turn()
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
        with contextlib.redirect_stdout(io.StringIO()):
            for t in ts:
                t.start()
            for t in ts:
                t.join(100)
        return out


class Preempted:
    """One call, interrupted once: when it comes to a place of the library's code for the n-th time, another call runs in between."""

    def __init__(self):
        import utide
        self.root = os.path.dirname(os.path.abspath(utide.__file__)) + os.sep

    def traced(self, at, job):
        import utide

        def local(frame, event, arg):
            if event == "line":
                at((frame.f_code.co_filename, frame.f_lineno))
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(self.root) else None
        out = []

        def body():
            sys.settrace(glob)
            try:
                out.append(plain(job))
            finally:
                sys.settrace(None)
        self.thread(body)
        return out[0] if out else None

    def thread(self, body):
        t = threading.Thread(target=body, daemon=True)
        t.start()
        t.join(60)

    def places(self, job):
        """How often every line is come to."""
        n = {}

        def at(k):
            n[k] = n.get(k, 0) + 1
        self.traced(at, job)
        return sorted(n.items())

    def run(self, job, other, place, nth):
        left, out = [nth], []

        def at(k):
            if k == place:
                left[0] -= 1
                if left[0] == 0:
                    self.thread(lambda: out.append(plain(other)))
        return [self.traced(at, job), out[0] if out else None]


def plain(job):
    import utide
    fn, args, kw = job
    try:
        return "result", getattr(utide, fn)(*args, **kw)
    except Exception as e:
        return core.status_of(e), None


# ------------------------------------------------------------------------------------------------ sessions
def play(s):
    """Replay a history.  s: ops, P (pool), coefs (pickled), weave (run the concurrent calls too)."""
    quiet()
    P, coefs = s["P"], s["coefs"]
    evs, held, live = [], [], {}
    times = None

    def arguments(i, form, reuse):
        """Argument objects for request i: new ones, or those of an earlier call while they are unchanged."""
        p = P[i]
        mine = live.get(i)
        if reuse and mine and digest(mine[1:3]) == mine[3]:
            return mine[:3]
        if p["kind"] == "reconstruct":
            c = next((h["r"] for h in held if h["i"] == p["of"] and h["kind"] == "solve" and h["pure"] and not P[p["of"]]["mc"]), None) if reuse else None
            shared = c is not None
            fn, args, kw = build(p, c if shared else pickle.loads(coefs[p["of"]]))
            args[0] = form_array(args[0], form)
        else:
            fn, args, kw = build(p)
            if not p["mc"] and p["case"].get("tform") == "array":
                args[0] = form_array(args[0], form)
            if not p["mc"]:
                args[1:] = [form_array(a, form) for a in args[1:]]
            if reuse:                                                 # share the data objects with another request of the same data
                for j, m in live.items():
                    if P[j]["kind"] == "solve" and "fault" not in P[j] and "fault" not in p and j != i:
                        for q in range(min(len(m[1]), len(args))):
                            if type(m[1][q]) is type(args[q]) and digest(m[1][q]) == digest(args[q]):
                                args[q] = m[1][q]
        if form == "readonly":
            deep_arrays(args[0] if p["kind"] == "reconstruct" and reuse else [args, kw], readonly, {})
        live[i] = (fn, args, kw, digest([args, kw]))
        return fn, args, kw

    def parts(fn, args, kw):
        d = {("t", "u" if fn == "solve" else "coef", "v")[q]: a for q, a in enumerate(args)}
        d.update(kw)
        return d

    def record(i, key, form, cls, r, rng0, tab0, before, ps, sched=""):
        after = {k: digest(v) for k, v in ps.items()}
        evs.append(dict(k="call", key=key, r=i, mc=P[i]["mc"], cls=cls, sig=signature(P[i]["kind"], r), rng0=rng0, rng1=rng_state(), tab0=tab0, tab1=tables(), form=form,
                        args=[k for k in before if before[k] != after[k]], sched=sched))

    def do(i, form, reuse, seed):
        p = P[i]
        fn, args, kw = arguments(i, form, reuse)
        ps = parts(fn, args, kw)
        if p["mc"]:
            np.random.seed(seed)
            random.seed(seed)
        before = {k: digest(v) for k, v in ps.items()}
        rng0, tab0 = rng_state(), tables()
        cls, r = call(fn, args, kw)
        record(i, f"{i}/{seed}" if p["mc"] else str(i), form, cls, r, rng0, tab0, before, ps)
        if r is not None:
            held.append(dict(i=i, kind=p["kind"], r=r, args=args, kw=kw, pure=True))

    def predictions(h):
        if h is None or h["kind"] != "solve":
            return []
        c = h["r"]
        t = h["t0"] if "t0" in h else float(c["aux"]["reftime"])
        h["t0"] = t
        cls, r = call("reconstruct", [t + np.arange(12) * 0.37, c], dict(epoch="python", verbose=False, min_SNR=0))
        return [dict(p="class", s=cls, m=[0, 0], x=[], est=True)] + signature("reconstruct", r)

    def touch(what, target, watch):
        if watch is None:
            return
        sig0, pre0 = signature(watch["kind"], watch["r"]), predictions(watch)
        tab0, rng0 = tables(), rng_state()
        scribble(target, {})
        tab1 = tables()
        ev = dict(k="touch", what=what, sig0=sig0, pre0=pre0, tab0=tab0, rng0=rng0)
        try:
            ev.update(sig1=signature(watch["kind"], watch["r"]), pre1=predictions(watch))
        except core.CaseTimeout:
            raise
        except Exception as e:                       # no longer a result at all
            ev.update(sig1=[dict(p="spoilt", s=repr(e)[:80], m=[0, 0], x=[], est=True)], pre1=[])
        ev.update(tab1=tab1, rng1=rng_state())
        evs.append(ev)

    last = None
    for o in s["ops"]:
        k, i = o["k"], (o["r"] - 1) % len(P)
        if k == "call" and o["kin"] and last is not None:
            kin = [j for j in range(len(P)) if P[j]["fam"] == P[last]["fam"]]
            i = kin[o["r"] % len(kin)]
        if k == "call":
            last = i
        if k == "call":
            do(i, o["form"], o["reuse"], o["seed"])
        elif k == "again" and held:
            do(held[max(0, len(held) - 1 - o["back"])]["i"], o["form"], o["reuse"], o["seed"])
        elif k == "seed":
            np.random.seed(1000 + o["seed"])
            random.seed(o["seed"])
        elif k == "result" and held:
            h = held.pop(max(0, len(held) - 1 - o["back"]))
            # another result that does not have this one as its argument
            w = next((x for x in reversed(held) if not any(a is h["r"] for a in x["args"]) and not any(a is x["r"] for a in h["args"])), None)
            if w is None:
                w = dict(i=-1, kind="none", r=None, args=[])
            tab0 = tables()
            if w["r"] is None:
                rng0 = rng_state()
                scribble(h["r"], {})
                evs.append(dict(k="touch", what="result", sig0=[], sig1=[], pre0=[], pre1=[], tab0=tab0, tab1=tables(), rng0=rng0, rng1=rng_state()))
            else:
                touch("result", h["r"], w)
            held[:] = [x for x in held if x["r"] is not h["r"]]
        elif k == "args" and held:
            h = held[max(0, len(held) - 1 - o["back"])]
            touch("args", [h["args"], h["kw"]], h)
            # a coefficient set that was the argument is spoilt now
            held[:] = [x for x in held if not any(a is x["r"] for a in h["args"])]
        elif k == "preempt" and s["weave"]:
            kin = [j for j in range(len(P)) if P[j]["fam"] == P[i]["fam"] and not P[j]["mc"]] if o["kin"] else []
            j = (o["rs"][0] - 1) % len(P)
            j = kin[o["rs"][0] % len(kin)] if kin else j
            if P[i]["mc"] or P[j]["mc"]:
                continue
            jobs = [arguments(x, o["form"], False) for x in (i, j)]
            pre = Preempted()
            with contextlib.redirect_stdout(io.StringIO()):
                places = pre.places(jobs[0])
            for a in o["at"] if places else []:
                place, count = places[a % len(places)]
                nth = 1 if a % 3 else 1 + a % count
                pss = [parts(*x) for x in jobs]
                before = [{b: digest(v) for b, v in ps.items()} for ps in pss]
                rng0, tab0 = rng_state(), tables()
                with contextlib.redirect_stdout(io.StringIO()):
                    res = pre.run(jobs[0], jobs[1], place, nth)
                for x, ps, b, rr in zip((i, j), pss, before, res):
                    if rr is not None:
                        record(x, str(x), o["form"], rr[0], rr[1], rng0, tab0, b, ps, sched=f"interrupted at {os.path.basename(place[0])}:{place[1]}")
        elif k == "threads" and s["weave"]:
            rs = [(x - 1) % len(P) for x in o["rs"]]
            rs = [x for x in rs if not P[x]["mc"]]
            if len(rs) < 2:
                continue
            if o["reuse"] and o["back"] == 0:
                rs = [rs[0]] * len(rs)                               # the same request (and arguments) twice
            jobs = [arguments(x, o["form"], o["reuse"]) for x in rs]
            pss = [parts(*j) for j in jobs]
            before = [{a: digest(v) for a, v in ps.items()} for ps in pss]
            rng0, tab0 = rng_state(), tables()
            sc = Schedule(len(jobs), o["slice"])
            res = sc.run(jobs)
            for x, j, ps, b, rr in zip(rs, jobs, pss, before, res):
                if rr is None:
                    return {"harness_timeout": True}
                record(x, str(x), o["form"], rr[0], rr[1], rng0, tab0, b, ps, sched=f"{sc.switches} switches" + (", released" if sc.free else ""))
                if rr[1] is not None:
                    held.append(dict(i=x, kind=P[x]["kind"], r=rr[1], args=j[1], kw=j[2], pure=True))
    return evs


def sessions(ck, cases, P, F, coefs, weave=True, limit=200):
    """Recorded sessions, each with the fresh outcomes it needs in front."""
    res = fork_map(play, [dict(ops=c, P=P, coefs=coefs, weave=weave) for c in cases], limit)
    out, back = [], []
    for n, r in enumerate(res):
        if isinstance(r, dict):
            ck.violation("a session of calls did not finish", dict(history=cases[n], pool=P))
            continue
        keys = []
        for e in r:
            if e["k"] == "call" and e["key"] not in keys:
                keys.append(e["key"])
        pre = [F[k] for k in keys]
        out.append(pre + r)
        back.append(n)
    return out, back


def drive(ck, tag, weave, nq, nt, pools=1, favour=None, qpools=1):
    """Common part of the three checks: generate, replay, judge; violations with the given tag."""
    rng = np.random.default_rng(ck.seed)
    tot = {}
    for q in range(ck.scale(qpools, pools)):
        sch = ck.gen("Gen_Schema", "Gen_Schema.cfg", num=200, depth=40, seed=ck.seed + 7919 * q)
        flt = sorted({c["f"] for c in ck.gen("Gen_Fault", "Gen_Fault_One.cfg")})
        P = pool(rng, favour(rng, sch) if favour else sch, flt)
        F, coefs = fresh_all(P)
        cases = ck.gen("Gen_Session", "Gen_Session.cfg", num=ck.scale(nq, nt), depth=40, seed=ck.seed + 104729 * q)
        ses, back = sessions(ck, cases, P, F, coefs, weave)
        can = corrupt(ses, tag)
        shown = set()
        for b in ck.judge("Trace_Session", None, sessions=ses, canary=can):
            why = [w for w in b["why"] if w.startswith(tag)]
            if why and b["i"] not in shown:
                shown.add(b["i"])
                e = ses[b["i"]][b["j"]]
                ck.violation("; ".join(why), dict(history=cases[back[b["i"]]], at=b["j"], event={k: v for k, v in e.items() if k not in ("sig", "sig0", "sig1", "pre0", "pre1")},
                                                  request=P[e["r"]] if "r" in e else None, pool=P))
        for s in ses:
            for e in s:
                t = e["k"] + ((":" + e["cls"]) if "cls" in e else (":" + e["what"]) if "what" in e else "") + (":concurrent" if e.get("sched") else "")
                tot[t] = tot.get(t, 0) + 1
        for s in ses[:: max(1, len(ses) // 3)]:
            ck.sample(dict(session=[e["k"] + ":" + str(e.get("key", e.get("what"))) for e in s if e["k"] != "fresh"]))
    ck.extra["events"] = tot
    return P, F, coefs


def corrupt(ses, tag):
    """Corrupted sessions the monitor must reject."""
    can = []
    for s in ses[::10]:
        i = next((n for n, e in enumerate(s) if e["k"] == "call" and e["cls"] == "result"), None)
        if i is None:
            continue
        e = s[i]
        if tag == "C18":
            f = e["sig"][-1]
            f = dict(f, x=[v + 1000 for v in f["x"]]) if f["x"] else dict(f, p="other")
            e = dict(e, sig=e["sig"][:-1] + [f])
        elif tag == "C19":
            e = dict(e, args=["u"])
        else:
            e = dict(e, rng1="another")
        can.append(s[:i] + [e] + s[i + 1:])
    return can
