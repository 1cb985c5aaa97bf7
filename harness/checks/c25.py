"""C25: transported, permuted and restricted solutions predict the same (Recon.tla, event kind port)."""
import copy, os, pickle, subprocess, sys, tempfile
import numpy as np
import core, tidecommon as tc
from c12 import make_solution

PER = ("name", "A", "g", "A_ci", "g_ci", "Lsmaj", "Lsmin", "theta", "Lsmaj_ci", "Lsmin_ci", "theta_ci", "PE", "SNR")
CHILD = r"""
import sys, pickle
sys.path.insert(0, sys.argv[1])
import utide, numpy as np
jobs = pickle.load(open(sys.argv[2], "rb"))
out = []
for tt, blob, two in jobs:
    try:
        c = pickle.loads(blob)
        r = utide.reconstruct(tt, c, epoch="python", min_SNR=0, verbose=False)
        out.append(np.concatenate([r.u, r.v]) if two else r.h)
    except Exception as e:
        out.append(repr(e)[:200])
pickle.dump(out, open(sys.argv[3], "wb"))
"""


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def jsonish(x):
    """Nested plain dictionaries with freshly made arrays, as after a save to and load from a file."""
    if isinstance(x, dict):
        return {k: jsonish(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return np.array(x.tolist(), dtype=object if x.dtype == object else None)
    return x


def permuted(coef, p):
    c = copy.deepcopy(coef)
    for k in PER:
        if k in c:
            c[k] = c[k][p]
    for k in ("frq", "lind"):
        c["aux"][k] = c["aux"][k][p]
    return c


def one(case):
    import utide
    rng = np.random.default_rng(case["seed"])
    two = case["two"]
    ev = dict(k="port", ok=True, err="", id=case["id"], form=case["form"], names=[], kept=[], base=[], single=[], got=[])
    blob = None
    try:
        d, coef = make_solution(utide, rng, case, case["seed"])
        names = [str(n) for n in coef["name"]]
        ev["names"], ev["kept"] = names, names
        tt = d["t0"] + rng.uniform(-40, 40, 7)
        val = lambda r: np.concatenate([r.u, r.v]) if two else r.h
        q = lambda x: core.quants(x, 2e7 / d["size"])
        rec = lambda c, **k: q(val(utide.reconstruct(tt, c, epoch="python", verbose=False, **k)))
        ev["base"] = rec(coef, constit=[])
        ev["single"] = [rec(coef, constit=[n]) for n in names]
        f, n = case["form"], len(names)
        if f in ("copy", "deepcopy"):
            c = copy.copy(coef) if f == "copy" else copy.deepcopy(coef)
        elif f == "pickle":
            c = pickle.loads(pickle.dumps(coef))
        elif f == "plain":
            c = plain(coef)
        elif f == "json":
            c = jsonish(coef)
        elif f == "permuted":
            c = permuted(coef, rng.permutation(n))
        elif f == "picklepermuted":
            c = pickle.loads(pickle.dumps(permuted(coef, rng.permutation(n)), protocol=2))
        elif f in ("subset", "subsetperm"):
            p = rng.permutation(n)[:int(rng.integers(1, n + 1))]
            if f == "subset":
                p = np.sort(p)
            c = permuted(coef, p)
            ev["kept"] = [names[i] for i in p]
        elif f == "process":
            p = rng.permutation(n)
            c = permuted(coef, p)
            blob = (tt, pickle.dumps(c), two, d["size"])
        if f != "process":
            ev["got"] = rec(c, min_SNR=0)
    except Exception as e:
        ev.update(ok=False, err=repr(e)[:200])
    return ev, blob


def run(ck):
    rng = np.random.default_rng(ck.seed)
    cases = ck.gen("Gen_Recon", "Gen_Recon_Port.cfg", num=ck.scale(600, 6000), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    res = core.pmap(one, cases)
    evs = [r[0] for r in res]
    # predictions in fresh processes that have never made the solution
    todo = [(i, r[1]) for i, r in enumerate(res) if r[1] is not None]
    for lo in range(0, len(todo), 40):
        part = todo[lo:lo + 40]
        a, b = os.path.join(ck.dir, "jobs.pkl"), os.path.join(ck.dir, "res.pkl")
        pickle.dump([j[1][:3] for j in part], open(a, "wb"))
        p = subprocess.run([sys.executable, "-c", CHILD, core.REPO, a, b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        if p.returncode:
            raise core.MachineryError("child process: " + p.stdout[-800:])
        for (i, j), got in zip(part, pickle.load(open(b, "rb"))):
            if isinstance(got, str):
                evs[i].update(ok=False, err=got)
            else:
                evs[i]["got"] = core.quants(got, 2e7 / j[3])
    can = [dict(e, got=[x + 300 for x in e["got"]]) for e in evs[::40] if e["ok"]]
    for b in ck.judge("Trace_Recon", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::120]:
        ck.sample(dict(case=c, kept=e["kept"], got=e["got"][:6]))
    ck.extra["fresh_process_predictions"] = len(todo)
