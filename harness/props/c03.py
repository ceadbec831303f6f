"""C03: causality"""
import numpy as np

from .. import galaxy as G
from ..core import num, nums
from ..galaxy import OPS  # noqa: F401


def run(c):
    cases = c.model("MC_Galaxy")
    c.notes["samples"] = cases[:2]
    c.rng.shuffle(cases)
    n = 0
    for k in cases:
        t = np.array([float(x) for x in k["t"]])
        s = np.array([float(x) for x in k["sfr"]])
        to = float(k["tobs"])
        if np.searchsorted(t, to, side="left") + 1 >= len(t):
            continue
        n += 1
        if n > c.n(120, 1000):
            break
        c.begin("model case")
        c.do("adopt", t=nums(t), sfr=nums(s))
        c.do("age_weights", lgage=k["lgage"], tobs=num(to), sfrmin="")
        t2, s2 = G.future_rewrite(c.rng, t, s, to)
        c.do("rewrite", t=nums(t2), sfr=nums(s2), tobs=num(to))
        c.do("age_weights", lgage=k["lgage"], tobs=num(to), sfrmin="")
    for n_t, n_a, n_m, n_w in c.n(((8, 6, 4, 3), (50, 20, 5, 4), (200, 5, 3, 2), (6, 130, 3, 2)),
                                  ((8, 6, 4, 3), (50, 20, 5, 4), (5, 12, 3, 6), (100, 60, 12, 3), (400, 5, 3, 2), (6, 200, 3, 2))):
        for r in range(c.n(60, 150) if n_t < 110 and n_a < 110 else c.n(4, 20)):
            c.begin("random galaxy, its future rewritten")
            t, s = G.galaxy(c.rng, n_t)
            a, m = G.age_grid(c.rng, n_a), G.met_grid(c.rng, n_m)
            i = int(c.rng.integers(0, n_t - 1))
            to = float("%.6g" % [t[i], 0.3 * t[i] + 0.7 * t[i + 1], t[i] * 1.0001][r % 3])
            lgz = G.r6(c.rng.uniform(-3.5, -1.5, n_t))
            sm = "" if r % 3 else num(float("%.3g" % 10 ** c.rng.uniform(-14, 0)))
            base = dict(scatter="0.2", lgmets=nums(m), lgage=nums(a), tobs=num(to))
            sed = dict(base, flux=nums(G.fluxes(c.rng, n_m, n_a, n_w, True)), sfrmin=sm)
            c.do("adopt", t=nums(t), sfr=nums(s))
            ob1 = dict(lgage=nums(a), tobs=num(to), sfrmin=sm)
            c.do("age_weights", **ob1)
            t2, s2 = G.future_rewrite(c.rng, t, s, to)
            c.do("rewrite", t=nums(t2), sfr=nums(s2), tobs=num(to))
            c.do("age_weights", **ob1)
            # the spectrum, before and after another rewrite
            c.do("sed_ln", lgmet="-2", **sed)
            t3, s3 = G.future_rewrite(c.rng, t2, s2, to)
            c.do("rewrite", t=nums(t3), sfr=nums(s3), tobs=num(to))
            c.do("sed_ln", lgmet="-2", **sed)
            # a metallicity history whose future is rewritten
            k = int(np.searchsorted(t3, to, side="left")) + 1
            lgz2 = lgz.copy()
            lgz2[k:] = G.r6(c.rng.uniform(-6, 1, len(lgz) - k)) if k < n_t else lgz[k:]
            c.do("met_matrix", lgz=nums(lgz), **base)
            c.do("met_matrix", lgz=nums(lgz2), keep=str(k), **base)
            c.do("sed_mt", lgz=nums(lgz), **sed)
            c.do("sed_mt", lgz=nums(lgz2), **sed)
    c.validate("TR_Galaxy")
