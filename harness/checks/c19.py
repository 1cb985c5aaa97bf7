"""C19: the caller's data are never modified or retained (MC_Session.tla, Trace_Session.tla)."""
import session


def forms(rng, cases):
    """Every representation of the data, with samples missing in it."""
    out, k = [], 0
    for c in cases:
        c = dict(c)
        if c["samp"] in ("regular", "jitter"):
            c["samp"] = "nangaps"
        c["two"] = k % 4 != 0
        c["uform"] = ("array", "masked", "series", "masked", "float32")[k % 5]
        c["vform"] = ("masked", "array", "series", "masked")[(k // 2) % 4] if c["two"] else "array"
        k += 1
        out.append(c)
    return out


def run(ck):
    ck.mc("MC_Session", "MC_Session.cfg")
    for m, inv in (("sharesArg", "ResultsKept"), ("writesArg", "ArgsKept")):
        ck.mc("MC_Session", f"MC_Session_{m}.cfg", expect_violation=inv)
    session.drive(ck, "C19", False, 100, 1000, pools=8, favour=forms, qpools=2)
