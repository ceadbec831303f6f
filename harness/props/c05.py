"""C05: metallicity-history weights"""
import numpy as np

from .. import galaxy as G
from ..core import num, nums
from ..galaxy import OPS  # noqa: F401


def run(c):
    cases = c.model("MC_Galaxy")
    c.notes["samples"] = cases[:2]
    c.rng.shuffle(cases)
    zs = ["-3.1", "-2.4", "-1.9", "-1.2", "-2.9"]
    for i, k in enumerate(cases[: c.n(120, 1200)]):
        c.begin("model case")
        c.do("adopt", t=k["t"], sfr=k["sfr"])
        n = len(k["t"])
        c.do("met_matrix", lgz=[zs[(j + i) % 5] for j in range(n)], scatter=["0.05", "0.3"][i % 2],
             lgmets=["-3", "-2.5", "-2", "-1.5"], lgage=k["lgage"], tobs=k["tobs"])
    shapes = c.n(((1, 3, 3), (5, 4, 3), (20, 10, 10), (60, 5, 24), (300, 3, 4), (6, 3, 150), (6, 60, 3), (4500, 3, 3), (6, 500, 3), (6, 3, 700)),
                 ((1, 3, 3), (2, 4, 4), (5, 4, 3), (20, 10, 10), (60, 5, 24), (100, 22, 60), (7, 12, 12), (800, 3, 4), (6, 3, 300), (6, 120, 3), (9000, 3, 3), (4500, 3, 3), (6, 1200, 3), (6, 3, 1500)))
    for n_t, n_m, n_a in shapes:
        for r in range(1 if max(n_t, n_m, n_a) > 400 else c.n(5, 20) if n_t == 1 or n_t > 200 or n_a > 100 or n_m > 50 else c.n(50, 120)):
            c.begin("random history")
            t = G.time_grid(c.rng, max(n_t, 2))[:n_t]
            a, m = G.age_grid(c.rng, n_a), G.met_grid(c.rng, n_m)
            lgz = [lambda: c.rng.uniform(-4, -1, n_t), lambda: np.linspace(-4, -1.5, n_t),
                   lambda: np.full(n_t, -2.2), lambda: c.rng.uniform(-9, 9, n_t),
                   lambda: c.rng.choice(m, n_t)][r % 5]()
            to = G.t_obs(c.rng, t) if n_t > 1 else 5.0
            c.do("adopt", t=nums(t), sfr=nums(np.ones(n_t)))
            sig = float("%.4g" % 10 ** c.rng.uniform(-2.5, 0.3))
            c.do("met_matrix", lgz=nums(G.r6(lgz)), scatter=num(sig), lgmets=nums(m),
                 lgage=nums(a), tobs=num(to))
    c.validate("TR_Galaxy")
