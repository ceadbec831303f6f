"""C07: composite SED"""
import numpy as np

from .. import galaxy as G
from ..core import num, nums
from ..galaxy import OPS  # noqa: F401


def run(c):
    cases = c.model("MC_Joint")
    c.notes["samples"] = cases[:2]
    c.rng.shuffle(cases)
    fl = G.fluxes(c.rng, 4, 5, 3)
    for k in cases[: c.n(60, 600)]:
        n_a, n_m = len(k["lgage"]), len(k["lgmets"])
        c.begin("model case")
        c.do("adopt", t=k["t"], sfr=k["sfr"])
        base = {q: k[q] for q in ("scatter", "lgmets", "lgage", "tobs")}
        base["flux"] = nums(np.resize(fl, (n_m, n_a, 3)))
        base["sfrmin"] = k["sfrmin"]
        c.do("sed_ln", lgmet=k["lgmet"], **base)
        c.do("sed_mt", lgz=k["lgz"], **base)
    shapes = c.n(((6, 4, 4, 4), (30, 5, 12, 7), (250, 3, 4, 2), (6, 3, 150, 2), (6, 60, 3, 2), (6, 3, 3, 700), (6, 24, 110, 1), (6, 3, 3, 6000), (3500, 3, 3, 1)),
                 ((6, 4, 4, 4), (30, 5, 12, 7), (30, 12, 5, 5), (100, 6, 30, 12), (3, 3, 3, 1), (800, 3, 4, 2), (6, 3, 300, 2), (6, 120, 3, 2), (6, 3, 3, 3000), (6, 60, 150, 1), (6, 3, 3, 12000), (6000, 3, 3, 1)))
    for n_t, n_m, n_a, n_w in shapes:
        for r in range(c.n(2, 4) if max(n_t, n_m * n_a, n_w) > 2500 else c.n(3, 12) if max(n_t - 100, n_m, n_a, n_w) > 50 else c.n(70, 120)):
            c.begin("random galaxy")
            t, s = G.galaxy(c.rng, n_t)
            a, m = G.age_grid(c.rng, n_a), G.met_grid(c.rng, n_m)
            to = G.t_obs(c.rng, t)
            if max(n_t, n_m * n_a, n_w) > 2500 and r:      # quiet ones, which are always resolved
                t, s = G.r6(np.linspace(0.1, 13.7, n_t)), G.r6(c.rng.uniform(0.3, 3, n_t))
                a, to = G.r6(np.linspace(-2.5, 1.05, n_a)), 12.5
            c.do("adopt", t=nums(t), sfr=nums(s))
            sm = "" if r % 3 == 0 else num(float("%.3g" % 10 ** c.rng.uniform(-14, 0)))
            base = dict(scatter=num(float("%.4g" % 10 ** c.rng.uniform(-2, 0.3))), lgmets=nums(m),
                        lgage=nums(a), tobs=num(to), sfrmin=sm,
                        flux=nums(G.fluxes(c.rng, n_m, n_a, n_w, True)))
            c.do("sed_ln", lgmet=num(float("%.6g" % c.rng.uniform(-4, -1))), **base)
            c.do("sed_mt", lgz=nums(G.r6(c.rng.uniform(-4, -1, n_t))), **base)
    c.validate("TR_Galaxy")
