"""Vectorised copy of the specification's tidal equation (spec/Tide.tla) in floating point, used to make data for the
fitting checks.  It reads the same integer tables and shares nothing with the code under test; each check that uses it
has TLC compare points of it with the specification (see `binding_events`)."""
import numpy as np
from tidecommon import TAB, IDX, D0, TICKS, NAMES

C0 = np.array([270434164, 279696678, 334329556, -259183275, 281220844]) * 1e-6
C1 = np.array([13.1763965268, 0.9856473354, 0.1114040803, 0.0529539222, 0.0000470684])
C2 = np.array([-8500, 2267, -77390, -15570, 3390]) * 1e-8
C3 = np.array([39, 0, -260, -50, 70]) * 1e-9


def astro(t):
    t = np.atleast_1d(np.asarray(t, float))
    d = t - D0
    D = d / 1e4
    a = (C0[:, None] + C1[:, None] * d + C2[:, None] * D**2 + C3[:, None] * D**3) / 360 % 1
    return np.vstack([(t % 1 + a[1] - a[0]) % 1, a])


def rates(t0):
    D = (t0 - D0) / 1e4
    r = (C1 + 2e-4 * C2 * D + 3e-4 * C3 * D**2) / 360
    return np.concatenate([[1 + r[1] - r[0]], r]) / 24       # cycles per hour


def freq(c, t0):
    e, r = TAB[c], rates(t0)
    if not e["compound"]:
        return float(np.dot(e["dood"], r))
    return sum(p["c2"] / 2 * float(np.dot(TAB[p["idx"] - 1]["dood"], r)) for p in e["parents"])


def _V(c, a):
    e = TAB[c]
    if not e["compound"]:
        return np.dot(e["dood"], a) + e["semi"] / 4
    return sum(p["c2"] / 2 * _V(p["idx"] - 1, a) for p in e["parents"])


def _V_half(c, a):
    # half-integral multiples halve the Doodson numbers (M7)
    e = TAB[c]
    return sum(p["c2"] * (np.dot(np.array(TAB[p["idx"] - 1]["dood"]) / 2, a) + TAB[p["idx"] - 1]["semi"] / 8) for p in e["parents"])


def efflat(lat):
    return lat if abs(lat) >= 5 else (5.0 if lat >= 0 else -5.0)


def nod(c, a, lat):
    e = TAB[c]
    if e["compound"]:
        z = 1
        for p in e["parents"]:
            f = nod(p["idx"] - 1, a, lat)
            m, u = np.abs(f), np.angle(f)
            z = z * m ** abs(p["c2"] / 2) * np.exp(1j * u * p["c2"] / 2)
        return z
    s = np.sin(np.radians(efflat(lat)))
    k = {0: 1.0, 1: 0.36309 * (1 - 5 * s * s) / s, 2: 2.59808 * s}
    z = np.ones(a.shape[1], complex)
    for q in e["sats"]:
        z = z + q["amp"] / 1e8 * k[q["lf"]] * np.exp(2j * np.pi * (np.dot(q["dd"], a[3:6]) + q["ph"] / 4))
    return z


def basis(names, t, t0, lat, phase, nodal):
    """F exp(2 pi i (V + U)), shape (len(t), len(names)); phase/nodal in the specification's vocabulary."""
    t = np.atleast_1d(np.asarray(t, float))
    a, a0 = astro(t), astro(t0)
    out = np.empty((len(t), len(names)), complex)
    for j, n in enumerate(names):
        c = IDX[n] if isinstance(n, str) else n
        adv = 24 * (t - t0) * freq(c, t0)
        Vf = _V_half if any(p["c2"] % 2 for p in TAB[c]["parents"]) else _V
        V = Vf(c, a) if phase == "Greenwich" else Vf(c, a0) + adv if phase == "linear_time" else adv
        F = nod(c, a, lat) if nodal == "exact" else nod(c, a0, lat) if nodal == "linear_time" else 1.0
        out[:, j] = F * np.exp(2j * np.pi * V)
    return out


def predict_scalar(names, A, g, mean, slope, t, t0, lat, phase, nodal):
    z = basis(names, t, t0, lat, phase, nodal) * np.exp(-1j * np.radians(g))
    return mean + slope * (t - t0) + z.real @ np.asarray(A, float)


def predict_vector(names, L, l, th, g, um, vm, us, vs, t, t0, lat, phase, nodal):
    z = basis(names, t, t0, lat, phase, nodal) * np.exp(-1j * np.radians(g))
    w = (z.real * L + 1j * z.imag * l) * np.exp(1j * np.radians(th))
    w = w.sum(axis=1)
    return um + us * (t - t0) + w.real, vm + vs * (t - t0) + w.imag


def binding_events(rng, n=40):
    """Points of this model as Trace_Tide events: TLC confirms that they are the specification's values."""
    import tidecommon as tc, core
    evs = []
    for i in range(n):
        c = int(rng.integers(len(NAMES)))
        t0 = tc.tick(tc.random_day(rng), int(rng.integers(1024)))
        t = tc.tick(t0[0] + int(rng.integers(-400, 400)), int(rng.integers(1024)))
        ph = ("Greenwich", "linear_time", "raw")[i % 3]
        nd = ("exact", "linear_time", "none")[(i // 3) % 3]
        lat = tc.random_lat4(rng)
        z = basis([c], tc.inst(t), tc.inst(t0), lat / 1e4, ph, nd)[0, 0]
        evs.append(dict(k="one", c=c + 1, ph=ph, nod=nd, t0=t0, lat=lat, t=[t], ok=True,
                        re=[core.quant(z.real, 1e8)], im=[core.quant(z.imag, 1e8)]))
    return evs


def bind(ck, rng, n=40):
    bad = ck.judge("Trace_Tide", binding_events(rng, n), chunks=2)
    if bad:
        raise core_error(f"the data model disagrees with the specification: {bad[:3]}")


def core_error(s):
    import core
    return core.MachineryError(s)
