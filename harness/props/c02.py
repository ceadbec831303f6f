"""C02: stellar age weights"""
import numpy as np

from .. import galaxy as G
from ..core import num, nums
from ..galaxy import OPS  # noqa: F401


def run(c):
    cases = c.model("MC_Galaxy")
    c.notes["samples"] = cases[:2]
    c.rng.shuffle(cases)
    for k in cases[: c.n(250, 2500)]:
        c.begin("model case")
        c.do("adopt", t=k["t"], sfr=k["sfr"])
        c.do("age_weights", lgage=k["lgage"], tobs=k["tobs"], sfrmin="")
    shapes = c.n(((1, 5), (2, 3), (3, 5), (10, 20), (40, 94), (100, 12), (300, 4), (6, 150)),
                 ((1, 5), (2, 3), (3, 5), (10, 20), (40, 94), (100, 12), (300, 50), (20, 107), (800, 5), (6, 300)))
    for n_t, n_a in shapes:
        for r in range(c.n(6, 40) if n_t < 3 or n_t > 200 or n_a > 120 else c.n(40, 120)):
            c.begin("random galaxy observed at several times")
            t, s = G.galaxy(c.rng, max(n_t, 2))
            t, s = t[:n_t], s[:n_t]
            a = G.age_grid(c.rng, n_a)
            c.do("adopt", t=nums(t), sfr=nums(s))
            for k in c.rng.permutation(7)[:3]:
                to = G.t_obs(c.rng, t, k) if n_t > 1 else 5.0
                c.do("age_weights", lgage=nums(a), tobs=num(to), sfrmin="")
            smin = float("%.3g" % 10 ** c.rng.uniform(-14, 0))
            c.do("age_weights", lgage=nums(a), tobs="13.5", sfrmin=num(smin))
            # the same history, rescaled
            c.do("adopt", t=nums(t), sfr=nums(s * 8.0))
            c.do("age_weights", lgage=nums(a), tobs="13.5", sfrmin="")
    # a bin edge or template age that coincides with the birth floor or with a knot
    a = [-2.0, -1.0, 0.0, 0.5, 1.0]
    c.begin("coincidences")
    c.do("adopt", t=nums([0.1, 1.0, 2.0, 5.0, 10.0, 13.0]), sfr=nums([1.0, 2.0, 0.0, 3.0, 4.0, 0.0]))
    for to in (1.0, 2.0, 10.0, 10.001, 11.0, 3.0, 0.5, 10 ** 0.25 + 0.001, 10 ** 0.75, 13.0, 30.0):
        c.do("age_weights", lgage=nums(a), tobs=num(to), sfrmin="")
    c.validate("TR_Galaxy")
