"""C01: stellar mass formed is the running integral of the SFH"""
from ..core import num, nums
from .. import galaxy as G
from ..galaxy import OPS  # noqa: F401
import numpy as np


def run(c):
    cases = c.model("MC_Galaxy")
    seen = set()
    for k in cases:
        key = (tuple(k["t"]), tuple(k["sfr"]))
        if key in seen:
            continue
        seen.add(key)
        c.begin("model case")
        c.do("form", t=k["t"], sfr=k["sfr"])
        if len(seen) >= c.n(150, 600):
            break
    c.notes["samples"] = cases[:2]
    for n_t in c.n((1, 2, 3, 7, 40, 100, 260, 700, 1500), (1, 2, 3, 5, 7, 16, 40, 100, 300, 1000, 5000)):
        for _ in range(c.n(30, 80) if n_t < 200 else c.n(3, 12) if n_t < 500 else 1):
            c.begin("random history, then extended and refined")
            t = G.time_grid(c.rng, max(n_t, 2))[:n_t]
            s = G.sfr_table(c.rng, t)
            c.do("form", t=nums(t), sfr=nums(s))
            k = c.rng.integers(n_t)
            # same history with other late SFRs: earlier masses stay
            s2 = s.copy()
            s2[k:] = 3.0 * s2[k:] + 0.5
            c.do("form", t=nums(t), sfr=nums(s2))
            c.do("form", t=nums(t), sfr=nums(s * 7.0))
    for n_t in c.n((4, 20), (4, 9, 20, 60)):
        for _ in range(c.n(20, 60)):
            c.begin("refined")
            t = G.time_grid(c.rng, n_t)
            s = G.sfr_table(c.rng, t)
            c.do("form", t=nums(t), sfr=nums(s))
            k = int(c.rng.integers(1, n_t))
            t2 = np.insert(t, k, 0.5 * (t[k - 1] + t[k]))
            s2 = np.insert(s, k, 0.5 * (s[k - 1] + s[k]))
            c.do("form", t=nums(t2), sfr=nums(s2))
    c.begin("table starting at the birth floor")
    c.do("form", t=["0.001", "0.01", "1"], sfr=["1", "2", "3"])
    c.do("form", t=["0.001"], sfr=["5"])
    c.validate("TR_Galaxy")
