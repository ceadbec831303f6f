"""C04: lognormal metallicity weights"""
import numpy as np

from .. import galaxy as G
from ..core import num, nums
from ..galaxy import OPS  # noqa: F401


def run(c):
    cases = c.model("MC_Mdf")
    c.notes["samples"] = cases[:2]
    c.rng.shuffle(cases)
    c.begin("model cases")
    for i, k in enumerate(cases[: c.n(400, 4000)]):
        if i % 50 == 0:
            c.begin("model cases")
        c.do("mdf", **k)
    for n_m in c.n((3, 4, 12, 22, 130, 600), (3, 4, 5, 12, 22, 60, 300, 2500)):
        for r in range(c.n(100, 300) if n_m < 100 else c.n(10, 50) if n_m < 500 else c.n(3, 8)):
            c.begin("random grid")
            m = G.met_grid(c.rng, n_m)
            lo, hi = m[0], m[-1]
            k = r % 8
            x = [c.rng.uniform(lo, hi), c.rng.choice(m), 0.5 * (m[0] + m[1]), lo - c.rng.uniform(0, 3),
                 hi + c.rng.uniform(0, 3), c.rng.choice([-10.5, 10.5, -30, 30]), lo, hi][k]
            sig = float("%.4g" % 10 ** c.rng.uniform(-4, 0.7))
            if abs(x) > 10 and 3 * sig > abs(x) - 10:
                sig = 0.05
            c.do("mdf", lgmet=num(float("%.6g" % x)), scatter=num(sig), lgmets=nums(m))
    c.begin("bin edge at the centre, support ending on an edge")
    m = nums([-3.0, -2.0, -1.0, 0.0])
    for x, s in ((-1.5, 0.1), (-1.5, 1.0), (-2.0, 0.5), (-2.0, 1 / 6), (-1.5, 1e-6), (-2.5, 3.0),
                 (10.0, 0.1), (-10.0, 0.1), (10.0001, 1e-5), (-10.0001, 1e-5), (11.0, 2.0)):
        c.do("mdf", lgmet=num(x), scatter=num(s), lgmets=m)
    c.validate("TR_Galaxy")
