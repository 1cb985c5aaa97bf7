"""C21: Monte Carlo is reproducible and isolated (MC_Session.tla, Trace_Session.tla)."""
import session


def favour(rng, cases):
    """Two in five requests with Monte Carlo, most others with linearized intervals; equally many robust."""
    out = []
    for c in cases:
        x = rng.random()
        if x < 0.4 and c["infer"] == "none":
            c = dict(c, conf="MC")
        elif x < 0.8:
            c = dict(c, conf="linear")
        if rng.random() < 0.5:
            c = dict(c, method=str(rng.choice(["ols", "robust"])))
        out.append(c)
    return out


def run(ck):
    ck.mc("MC_Session", "MC_Session.cfg")
    ck.mc("MC_Session", "MC_Session_draws.cfg", expect_violation="RandomKept")
    session.drive(ck, "C21", False, 70, 1000, pools=8, favour=favour, qpools=4)
