"""C18: no call influences another (MC_Session.tla, Trace_Session.tla)."""
import session

MUTANTS = (("sharesTable", "CallsIndependent"), ("sharesDefault", "CallsIndependent"), ("writesTable", "CallsIndependent"), ("caches", "CallsIndependent"),
           ("half", "CallsIndependent"))


def run(ck):
    ck.mc("MC_Session", "MC_Session.cfg")
    for m, inv in MUTANTS:
        ck.mc("MC_Session", f"MC_Session_{m}.cfg", expect_violation=inv)
    session.drive(ck, "C18", True, 160, 1200, pools=6)
