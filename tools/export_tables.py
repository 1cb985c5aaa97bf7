"""One-off: write the published constituent tables of the pinned commit as scaled integers
(spec/tables.json), which the TLA+ specification reads.  Run with /opt/venv/bin/python."""
import json, sys
import numpy as np
from utide import ut_constants as u
c, s, sh = u.const, u.sat, u.shallow
def num(x, scale=1):
    return None if np.isnan(x) else int(round(float(x) * scale))
out = []
for i, name in enumerate(c.name):
    d = dict(name=str(name), idx=i + 1, compound=bool(np.isfinite(c.ishallow[i])))
    if d["compound"]:
        k = int(c.ishallow[i]) - 1; n = int(c.nshallow[i])
        assert (sh.iconst[k:k + n] == i + 1).all()
        d["parents"] = [dict(idx=int(a), c2=int(round(2 * b))) for a, b in zip(sh.iname[k:k+n], sh.coef[k:k+n])]
        d["dood"] = []; d["semi"] = 0; d["sats"] = []
    else:
        d["dood"] = [int(x) for x in c.doodson[i]]
        d["semi"] = num(c.semi[i], 4)
        d["parents"] = []
        j = np.nonzero(s.iconst == i + 1)[0]
        d["sats"] = [dict(dd=[int(x) for x in s.deldood[m]], ph=num(s.phcorr[m], 4), amp=num(s.amprat[m], 10**8), lf=int(s.ilatfac[m])) for m in j]
    # frequency, 1e-12 cph, as <<hi, lo>> base 1e6; df in 1e-10 cph
    d["freq12"] = [num(c.freq[i], 10**12) // 10**6, num(c.freq[i], 10**12) % 10**6] if np.isfinite(c.freq[i]) else None
    d["df10"] = num(c.df[i], 10**10)
    out.append(d)
json.dump(out, open(sys.argv[1], "w"), indent=0)
