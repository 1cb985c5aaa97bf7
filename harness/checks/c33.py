"""C33: noise spectra by band (Spectrum.tla, MC_Spectrum.tla, Trace_Spectrum.tla)."""
import numpy as np
import core

BANDS = np.array([[10, 417], [3192, 4859], [7218, 8884], [11243, 12910], [15269, 16936], [19295, 20961], [23320, 25100], [26000, 29000], [30000, 50000]]) * 1e-5


def fl(x):
    return [0, 9999] if not np.isfinite(x) else core.flt(x)


def coefs(rng, case, h):
    """Fourier coefficients 0 .. h of a real series."""
    c = (rng.standard_normal(h + 1) + 1j * rng.standard_normal(h + 1)) * 0.1
    if case["kind"] == "red":
        c /= np.arange(1, h + 2)
    elif case["kind"] == "lines":
        k = rng.choice(h + 1, 3, replace=False)
        c[k] *= rng.choice([30, 1000])
    elif case["kind"] == "one":
        k = int(rng.integers(1, h))
        c = np.where(np.arange(h + 1) == k, c, 0)
    c[0], c[h] = 0, c[h].real
    return c


def one(case):
    from utide.periodogram import band_psd
    rng = np.random.default_rng(case["seed"])
    n, q = case["n"], case["q"]
    dt, h = q / 4, n // 2
    size = dict(unit=1.0, tiny=1e-6, huge=1e5)[case["size"]]
    cu = coefs(rng, case, h) * size
    cv = {"free": coefs(rng, case, h) * size, "same": cu * 0.5, "opposite": cu * -2.0, "quadrature": cu * 1j}[case["like"]]
    cv[h] = cv[h].real
    back = lambda c: np.fft.irfft(c, n) * n + size * case["mean"]
    e = back(cu) + (1j * back(cv) if case["two"] else 0)
    m = n
    if case["odd"]:                                             # one more sample, which does not count
        e = np.append(e, e[3] * 1.7)
        m = n + 1
    t = case["start"] + np.arange(m) * dt / 24
    kmax = h if case["even"] else h - 1
    near, cf = [], []
    while len(cf) < case["ncf"]:
        b = BANDS[int(rng.integers(len(BANDS)))]
        f = rng.uniform(*b)
        k = int(round(f * n * dt))
        if abs(f * n * dt - k) < 0.45 and 1 <= k <= kmax and b[0] <= k / (n * dt) <= b[1]:
            cf.append(f)
            near.append(k)
        elif rng.random() < 0.02:
            break
    pair = lambda c: [[core.flt(x.real), core.flt(x.imag)] for x in c]
    ev = dict(err="", n=n, q=q, two=case["two"], cu=pair(cu), cv=pair(cv) if case["two"] else [], near=near, kmax=kmax, uu=[], vv=[], uv=[], edges=[], id=case["id"])
    try:
        kw = {} if case["even"] and rng.random() < 0.5 else dict(equi=case["even"])
        e0, t0, cf = e.copy(), t.copy(), np.array(cf)
        P = band_psd(t, e, cf, **kw)
        if not (np.array_equal(e0, e) and np.array_equal(t0, t)):
            ev["err"] = "the series given was changed"
        ev["uu"] = [fl(x) for x in P["Puu"]]
        ev["edges"] = [[int(round(x * 1e5)) for x in b] for b in P["fbnd"]]
        if case["two"]:
            ev["vv"], ev["uv"] = [fl(x) for x in P["Pvv"]], [fl(x) for x in P["Puv"]]
    except Exception as x:
        import traceback
        ev.update(err=repr(x)[:150], tb=traceback.format_exc()[-600:])
    return ev


def run(ck):
    rng = np.random.default_rng(ck.seed)
    ck.mc("MC_Spectrum", "MC_Spectrum.cfg", workers=1)
    for m in ("hamming", "twosided"):
        ck.mc("MC_Spectrum", f"MC_Spectrum_{m}.cfg", expect_violation="Power", workers=1)
    cases = ck.gen("Gen_Spectrum", "Gen_Spectrum.cfg", num=ck.scale(500, 6000), depth=40)
    for i, c in enumerate(cases):
        c["seed"], c["id"] = int(rng.integers(2**31)), i
    evs = core.pmap(one, cases)
    can = []
    for e in [e for e, c in zip(evs, cases) if c["kind"] in ("noise", "red")][::12]:
        k = next((i for i, x in enumerate(e["uu"]) if i and x[1] < 9000 and x[0]), None)
        if e["err"] or k is None:
            continue
        x = [e["uu"][i] if i != k else [0, 9999] for i in range(9)]
        if not e["near"]:
            can.append(dict(e, uu=x))
        can.append(dict(e, uu=[e["uu"][i] if i != k else [e["uu"][k][0], e["uu"][k][1] + 1] for i in range(9)]))
        if e["two"] and e["uv"][k][0] and abs(e["uv"][k][1] - e["uu"][k][1]) <= 1:
            can.append(dict(e, uv=[e["uv"][i] if i != k else [-e["uv"][k][0], e["uv"][k][1] + 1] for i in range(9)]))
    for b in ck.judge("Trace_Spectrum", evs, canary=can):
        ck.violation("; ".join(b["why"]), dict(case=cases[b["i"]], event=evs[b["i"]]))
    for e, c in list(zip(evs, cases))[::100]:
        ck.sample(dict(case=c, bands=sum(x[1] < 9000 for x in e["uu"])))
