"""C11: mass-metallicity relation"""
import numpy as np

from .. import params as M
from ..core import num, nums
from ..params import OPS  # noqa: F401


def both(c, lgm, t, p):
    """every form of the relation at the same place"""
    for what in ("t0", "evol", "model"):
        c.do("mzr", impl="umzr", what=what, lgm=nums(lgm), t=nums(t), p=nums(p))
    old = list(p[:7]) + [8.44] + list(p[7:])
    for what in ("t0", "evol", "model"):
        c.do("mzr", impl="mzr", what=what, lgm=nums(lgm), t=nums(t), p=nums(old))


def run(c):
    cs = c.model("MC_Mzr")
    c.notes["samples"] = cs[:2]
    by_p = {}
    for k in cs:
        by_p.setdefault(tuple(k["p"]), []).append((float(k["lgm"]), float(k["t"])))
    for p, pts in by_p.items():
        c.begin("model case")
        pts = np.array(pts)
        both(c, pts[:, 0], pts[:, 1], np.array([float(x) for x in p]))
    for r in range(c.n(60, 400)):
        c.begin("random parameters")
        n = c.n(8, 20)
        lgm = np.round(c.rng.uniform(*((6, 13) if r % 3 else (3, 16)), n), 4)
        t = np.round(c.rng.uniform(0.05, 14.5 if r % 3 else 25, n), 4)
        t[0] = (12.5, 12.499, 12.51, 4.06)[r % 4]
        p = M.inside(c.rng, "mzr")
        both(c, lgm, t, p)
        tc = np.round(c.rng.uniform(4, 12), 3)
        old = list(p[:7]) + [tc] + list(p[7:])
        c.do("mzr", impl="mzr", what="model", lgm=nums(lgm), t=nums(t), p=nums(old))
        if r % 10 == 0:                 # the same among many others
            for impl, q in (("umzr", p), ("mzr", old)):
                c.do("mzr", impl=impl, what="model", lgm=nums(lgm), t=nums(t), p=nums(q),
                     among=int(c.rng.choice([1200, 8000, 50000])))
        # parameters for which the relation would rise into the past
        p2 = p.copy()
        p2[5:] = np.round(c.rng.normal(0, (1, 0.1, 4)[r % 3], 4), 4)
        c.do("mzr", impl="umzr", what="evol", lgm=nums(lgm), t=nums(t), p=nums(p2))
        # and evolution of any strength, in either form
        p3 = np.round(c.rng.normal(0, 10.0 ** c.rng.uniform(-1, 1.5), 9), 4)
        p3[1], p3[2] = round(c.rng.uniform(5, 15), 3), round(10.0 ** c.rng.uniform(-1.5, 1.5), 4)
        both(c, lgm, t, p3)
        c.do("maiolino", lgm=nums(lgm), m0=num(round(c.rng.uniform(11, 13), 3)),
             k0=num(round(c.rng.uniform(8, 10), 3)))
    c.validate("TR_Params")
