"""Shared machinery of the checks: running TLC (model checking, generation, trace judging), the worker pool that
runs the code under test, evidence, verdicts."""
import concurrent.futures as cf
import json, math, multiprocessing as mp, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)
BIG = 10**9          # clamp of quantised numbers
NANI = 2 * 10**9     # stands for NaN
INFI = 2 * 10**9 + 1 # stands for +-infinity


class MachineryError(Exception):
    pass


def quant(x, scale):
    """Scaled integer for the specification (TLC integers have 32 bits)."""
    x = float(x)
    if math.isnan(x):
        return NANI
    if math.isinf(x):
        return INFI
    v = x * scale
    if v >= BIG:
        return BIG
    if v <= -BIG:
        return -BIG
    return int(round(v))


def flt(x):
    """Decimal floating point [m, e] = m * 10^(e-8) for the specification (spec/Flt.tla)."""
    x = float(x)
    if math.isnan(x):
        return [0, 9999]
    if math.isinf(x):
        return [0, 9998]
    if x == 0:
        return [0, 0]
    s = f"{abs(x):.7e}"                       # d.ddddddde+xx
    m, ex = s.split("e")
    m, e = int(m.replace(".", "")), int(ex) + 1
    return [m if x > 0 else -m, e]


def flts(xs):
    return [flt(x) for x in xs]


def quants(xs, scale):
    return [quant(x, scale) for x in xs]


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.states = self.transitions = self.traces = 0
        self.samples, self.extra, self.models = [], {}, []
        self.violations, self.known = [], []
        self.assumptions = []
        self.deferred = []
        self._n = 0
        with open(os.path.join(VERIF, "known-findings.json")) as f:
            self.findings = [k for k in json.load(f)["findings"] if k["property"] == pid and k["status"] == "known"]

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # ---------------------------------------------------------------- TLC
    def _tlc(self, module, cfg, args=(), env=None, heap="1500m", timeout=800, tag="run"):
        self._n += 1
        d = os.path.join(self.dir, f"{tag}{self._n}-{os.getpid()}")
        os.makedirs(d)
        cmd = ["java", "-XX:+UseSerialGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={d}", "-cp", CP, "tlc2.TLC", "-metadir", d,
               "-noGenerateSpecTE", "-config", cfg, *args, module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        shutil.rmtree(d, ignore_errors=True)
        return p.returncode, p.stdout

    def mc(self, module, cfg, expect_violation=None, workers=4, timeout=800):
        """Model-check a bounded configuration; the named mutant configurations must violate an invariant."""
        rc, out = self._tlc(module, cfg, ["-workers", str(workers)], timeout=timeout, heap="4g", tag="mc")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if expect_violation:
            if rc == 0 or not re.search(rf"({expect_violation}).*is violated|property .*({expect_violation})", out):
                raise MachineryError(f"mutant model {cfg} was not rejected by {expect_violation}:\n{out[-3000:]}")
        elif rc != 0:
            raise MachineryError(f"TLC failed on {module} {cfg}:\n{out[-4000:]}")
        g, s = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not expect_violation:
            self.states += s
            self.transitions += g
        self.models.append({"module": module, "config": cfg, "distinct_states": s, "states_generated": g,
                            "result": f"rejected by {expect_violation}, as intended" if expect_violation else "no error"})
        self.log(f"TLC {module} {cfg}: {s} distinct states" + (" (mutant rejected)" if expect_violation else ""))

    def gen(self, module, cfg, num=None, depth=100, seed=None, env=None, timeout=800):
        """Cases printed by a generator module: CASE lines holding JSON.  num=None: exhaustive."""
        args = ["-workers", "1"]
        if num is not None:
            args += ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed if seed is not None else self.seed)]
        rc, out = self._tlc(module, cfg, args, env=env, timeout=timeout, tag="gen")
        cases = []
        for line in out.splitlines():
            if line.startswith('"CASE ') and line.endswith('"'):
                cases.append(json.loads(json.loads(line)[5:]))
        if not cases or (rc != 0 and "Error:" in out):
            raise MachineryError(f"generator {module} {cfg} failed:\n{out[-3000:]}")
        m = re.findall(r"(\d+) states generated", out.replace(",", ""))
        if m:
            self.transitions += int(m[-1])
            self.states += int(m[-1])
        self.log(f"TLC {module} {cfg}: {len(cases)} generated cases")
        return cases

    def judge(self, module, events, cfg=None, chunks=NCPU, sessions=None, timeout=800, canary=()):
        """Judge recorded events with a trace specification.  Returns the list of rejected events
        [{'i': index, 'why': [clause, ...], ...}].  Every event must be consumed by TLC.
        canary: corrupted events that the specification must reject (shows that the judge is not vacuous).
        sessions: optional list of lists of events, each a stateful trace starting from the initial state."""
        cfg = cfg or module + ".cfg"
        groups = list(sessions) if sessions is not None else [[e] for e in events]
        ncan = len(groups)
        groups += list(canary) if sessions is not None else [[e] for e in canary]
        n = max(1, min(chunks, len(groups)))
        parts = [[] for _ in range(n)]
        for gi, g in enumerate(groups):
            parts[gi % n].append((gi, g))
        jobs = []
        for k, part in enumerate(parts):
            self._n += 1
            tr = os.path.join(self.dir, f"trace{self._n}.ndjson")
            idx = []
            with open(tr, "w") as f:
                for gi, g in part:
                    for j, e in enumerate(g):
                        e = dict(e)
                        if sessions is not None:
                            e["first"] = j == 0
                        f.write(json.dumps(e, allow_nan=False) + "\n")
                        idx.append((gi, j))
            jobs.append((tr, tr + ".out", idx))
        bad = []

        def run(job):
            tr, out, idx = job
            lines = open(tr).read().splitlines()
            r, dropped = [], 0
            while True:
                rc, txt = self._tlc(module, cfg, ["-workers", "1"], env={"TRACE": tr, "OUT": out}, timeout=timeout, tag="tr")
                if rc == 0 and os.path.exists(out):
                    break
                # An event the specification gives no meaning to (a field of another kind, a name it does not know): it is
                # rejected with its session, and the rest judged.
                m = re.search(r"The error occurred when TLC was evaluating", txt) and re.findall(r"(\d+) distinct states found", txt)
                k = int(m[-1]) - 1 if m else -1
                if not 0 <= k < len(idx) or idx[k][0] >= ncan or dropped >= 12:
                    if dropped >= 12:
                        return r, len(r), txt
                    raise MachineryError(f"trace judge {module} failed:\n{txt[-4000:]}")
                msg = " ".join(re.findall(r"^(?:Attempted|In evaluation|Evaluating|The (?:first|second) argument|The exception was|: Overflow)[^\n]*", txt, re.M))[:200]
                gi, j = idx[k]
                r.append({"i": gi, "j": j, "why": ["recorded event has no meaning in the specification: " + msg]})
                keep = [q for q in range(len(idx)) if idx[q][0] != gi]
                lines, idx, dropped = [lines[q] for q in keep], [idx[q] for q in keep], dropped + 1
                if not idx:
                    return r, len(r), txt
                with open(tr, "w") as f:
                    f.write("".join(x + "\n" for x in lines))
            v = json.load(open(out))
            if v["n"] != len(idx):
                raise MachineryError(f"trace judge {module} consumed {v['n']} of {len(idx)} events")
            for b in v["bad"]:
                gi, j = idx[b["i"] - 1]
                b = dict(b, i=gi, j=j)
                r.append(b)
            return r, len(idx), txt

        with cf.ThreadPoolExecutor(n) as ex:
            for r, cnt, txt in ex.map(run, jobs):
                bad += r
                self.states += cnt + 1
                self.transitions += cnt
        missed = set(range(ncan, len(groups))) - {b["i"] for b in bad}
        if missed:
            # a judge that accepts corrupted events decides nothing - unless the code under test is what spoiled the
            # event the corruption was made from, which finish() settles
            self.deferred.append(f"{module} accepted a corrupted event: {str(groups[min(missed)])[:3000]}")
        bad = [b for b in bad if b["i"] < ncan]
        groups = groups[:ncan]
        self.extra["corrupted_events_rejected"] = self.extra.get("corrupted_events_rejected", 0) + len(canary)
        tot = sum(len(g) for g in groups)
        self.traces += len(groups)
        self.log(f"TLC {module}: judged {tot} events in {len(groups)} traces, {len(bad)} rejected")
        for tr, out, _ in jobs:
            for f in (tr, out):
                if os.path.exists(f):
                    os.unlink(f)
        bad.sort(key=lambda b: (b["i"], b["j"]))
        return bad

    # ---------------------------------------------------------------- verdicts
    def violation(self, what, replay):
        if len(self.violations) < 50:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", f"{self.pid}-{len(self.violations)}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "what": what, "seed": self.seed, "tier": self.tier, "case": replay}, f, indent=1, default=str)
            self.violations.append((what, path))
            print(f"VIOLATION property={self.pid} replay={path}  {what}"[:600], flush=True)
        else:
            self.violations.append((what, None))

    def known_finding(self, key, what):
        """A violation the committed file lists: reported, not an alarm.  False if it is not listed."""
        for k in self.findings:
            if k["key"] == key:
                if key not in self.known:
                    self.known.append(key)
                    print(f"KNOWN-FINDING: property={self.pid} {what}"[:600], flush=True)
                return True
        return False

    def sample(self, s, n=6):
        if len(self.samples) < n:
            self.samples.append(s)

    def finish(self):
        if self.deferred and not self.violations:
            raise MachineryError(self.deferred[0])
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples, "models": self.models}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        self.log("violations:", len(self.violations))
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# -------------------------------------------------------------------- workers
class CaseTimeout(Exception):
    pass


def _alarm(sig, frame):
    raise CaseTimeout()


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import warnings
    warnings.simplefilter("ignore")


def _call(a):
    fn, case, limit = a
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return fn(case)
    except CaseTimeout:
        return {"harness_timeout": True}
    finally:
        signal.alarm(0)


def pmap(fn, cases, limit=120, procs=NCPU, chunk=None):
    """Run fn on each case in worker processes (forked)."""
    cases = list(cases)
    if not cases:
        return []
    with mp.get_context("fork").Pool(procs, initializer=_init_worker) as pool:
        return pool.map(_call, [(fn, c, limit) for c in cases], chunksize=chunk or max(1, len(cases) // (procs * 6)))


def status_of(exc):
    """Outcome class of an exception raised by the code under test."""
    for t in ("KeyError", "ValueError", "TypeError", "AttributeError", "NotImplementedError", "IndexError"):
        if type(exc).__name__ == t:
            return t
    for base in type(exc).__mro__:
        if base.__name__ in ("KeyError", "ValueError", "TypeError", "AttributeError", "NotImplementedError", "IndexError"):
            return base.__name__
    return type(exc).__name__
