"""C15: presentation and uncertainty options leave the estimates alone (Law.tla, the identity transformation)."""
import os, sys, tempfile
import numpy as np
import core, tidecommon as tc
from c09 import NOISE


class Capture:
    """Everything written to standard output and error, by Python or below it."""
    def __enter__(self):
        self.f = tempfile.TemporaryFile()
        sys.stdout.flush(), sys.stderr.flush()
        self.fds = [os.dup(1), os.dup(2)]
        os.dup2(self.f.fileno(), 1), os.dup2(self.f.fileno(), 2)
        self.py = (sys.stdout, sys.stderr)
        self.g = os.fdopen(os.dup(self.f.fileno()), "w", buffering=1)
        sys.stdout = sys.stderr = self.g
        return self

    def __exit__(self, *a):
        self.g.flush()
        self.g.close()
        sys.stdout, sys.stderr = self.py
        for k in (0, 1):
            os.dup2(self.fds[k], k + 1)
            os.close(self.fds[k])
        self.f.seek(0)
        b = self.f.read()
        self.n, self.text = len(b), b[:300].decode("utf8", "replace")
        self.f.close()


def one(case):
    import utide, warnings
    rng = np.random.default_rng(case["seed"])
    two = case["two"]
    ev = dict(k="pre", ok=True, err="", id=case["id"], base=None, w=[], vars=[])
    try:
        d = tc.record(rng, dict(case, noise=NOISE[case["noise"]]))
        o = tc.solve_opts(dict(case, conf="none"), d["names"])
        inf = tc.make_infer(rng, case, d["names"], two)
        if inf:
            o["infer"] = inf
        if case["method"] == "robust" and rng.random() < 0.5:
            o["robust_kw"] = dict(o["robust_kw"], maxit=int(rng.choice([1, 2, 3, 100])), tol=float(rng.choice([1e-3, 1e-6])))
        size, days = d["size"], d["days"]
        tt = np.concatenate([d["t"][::97], d["t"][-1] + rng.uniform(0, 400, 12)])

        def run(conf, white, order, verbose, seed):
            p = dict(o, conf_int=conf, white=white, order_constit=order, verbose=verbose)
            np.random.seed(seed)
            with warnings.catch_warnings(), Capture() as c:
                # a warning is output too; a perfect fit may divide by zero on the way to an infinite SNR
                warnings.simplefilter("always" if case["noise"] else "ignore")
                coef = utide.solve(d["t"], d["u"], d["v"], lat=d["lat"], **p)
                rc = utide.reconstruct(tt, coef, epoch="python", verbose=verbose, min_SNR=0)
            return coef, rc, c
        base, rc0, _ = run("none", False, "frequency", False, 1)
        ev["base"], ev["w"] = tc.observe(base, size, days), core.flts(base["weights"])
        names = [str(n) for n in base["name"]]
        pred = lambda r: core.quants(np.concatenate([r["u"], r["v"]] if two else [r["h"]]), 1e8 / size)
        ev["p"] = pred(rc0)
        for k in range(case["nv"]):
            conf = rng.choice(["none", "linear", "MC"] if not inf else ["none", "linear"])
            order = rng.choice(["PE", "frequency", "SNR", "list", "None"] if conf != "none" else ["PE", "frequency", "list", "None"])
            ordv = [names[i] for i in rng.permutation(len(names))] if order == "list" else None if order == "None" else str(order)
            quiet = bool(rng.random() < 0.5)
            white = bool(rng.random() < 0.5)
            sd = int(rng.integers(2**31))
            coef, rc, cap = run(str(conf), white, ordv, not quiet, sd)
            ev["vars"].append(dict(form=f"conf_int={conf}, white={white}, order={order}, verbose={not quiet}, draw={sd}", obs=tc.observe(coef, size, days),
                                   w=core.flts(coef["weights"]), p=pred(rc), quiet=quiet, out=cap.n, text=cap.text if quiet else ""))
    except Exception as e:
        import traceback
        ev.update(ok=False, err=repr(e)[:200], tb=traceback.format_exc()[-700:])
    return ev


def run(ck):
    ck.mc("MC_Law", "MC_Law.cfg", workers=4)
    rng = np.random.default_rng(ck.seed)
    cases = ck.gen("Gen_Law", "Gen_Law_Pre.cfg", num=ck.scale(400, 6000), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"], c["nv"] = int(rng.integers(2**31)), i, ck.scale(5, 8)
    evs = core.pmap(one, cases)
    can = []
    for e in evs[::25]:
        if e["ok"]:
            v = e["vars"]
            q = [x for x in v if x["quiet"]]
            can.append(dict(e, vars=[dict(v[0], obs=dict(v[0]["obs"], mean=[x + 100 for x in v[0]["obs"]["mean"]]))] + v[1:]))
            can.append(dict(e, vars=[dict(v[0], w=[[x[0] - 10**5, x[1]] for x in v[0]["w"]])] + v[1:]))
            if q:
                can.append(dict(e, vars=[dict(q[0], out=1)]))
    for b in ck.judge("Trace_Law", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::80]:
        ck.sample(dict(case=c, vars=[v["form"] for v in e["vars"]]))
    ck.extra["related_pairs"] = sum(len(e["vars"]) for e in evs)
