"""C06: joint SSP weights"""
import numpy as np

from .. import galaxy as G
from ..core import num, nums
from ..galaxy import OPS  # noqa: F401


def run(c):
    cases = c.model("MC_Joint")
    c.notes["samples"] = cases[:2]
    c.rng.shuffle(cases)
    for k in cases[: c.n(100, 1000)]:
        c.begin("model case")
        c.do("adopt", t=k["t"], sfr=k["sfr"])
        base = {q: k[q] for q in ("scatter", "lgmets", "lgage", "tobs", "sfrmin")}
        c.do("ssp_ln", lgmet=k["lgmet"], **base)
        c.do("ssp_mt", lgz=k["lgz"], **base)
    shapes = c.n(((6, 4, 4), (30, 5, 12), (30, 12, 5), (250, 3, 4), (6, 3, 150), (6, 60, 3), (5, 5, 5), (12, 22, 94)),
                 ((6, 4, 4), (30, 5, 12), (30, 12, 5), (100, 10, 40), (3, 3, 3), (12, 22, 94), (800, 3, 4), (6, 3, 300), (6, 120, 3)))
    for n_t, n_m, n_a in shapes:
        for r in range(c.n(5, 20) if max(n_t - 100, n_m, n_a) > 50 and n_m != 22 else c.n(1, 10) if n_m == 22 else c.n(60, 120)):
            c.begin("random galaxy")
            t, s = G.galaxy(c.rng, n_t)
            a, m = G.age_grid(c.rng, n_a), G.met_grid(c.rng, n_m)
            to = G.t_obs(c.rng, t)
            c.do("adopt", t=nums(t), sfr=nums(s))
            base = dict(scatter=num(float("%.4g" % 10 ** c.rng.uniform(-2, 0.3))), lgmets=nums(m),
                        lgage=nums(a), tobs=num(to),
                        sfrmin="" if r % 2 else num(float("%.3g" % 10 ** c.rng.uniform(-14, 1))))
            x = [c.rng.uniform(m[0], m[-1]), m[0] - 1, m[-1] + 1, c.rng.choice(m), 30.0][r % 5]
            if x == 30.0:
                base["scatter"] = "0.1"
            c.do("ssp_ln", lgmet=num(float("%.6g" % x)), **base)
            c.do("ssp_mt", lgz=nums(G.r6(c.rng.uniform(-4, -1, n_t))), **base)
    c.validate("TR_Galaxy")
