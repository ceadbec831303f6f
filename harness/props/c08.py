"""C08: burst mixture"""
import numpy as np

from .. import galaxy as G
from ..core import num, nums
from ..galaxy import OPS  # noqa: F401


def run(c):
    cases = c.model("MC_Burst")
    c.notes["samples"] = cases[:2]
    c.rng.shuffle(cases)
    for i, k in enumerate(cases[: c.n(300, 3000)]):
        if i % 20 == 0:
            c.begin("model cases")
        c.do("burst", **k)
    for n_a in c.n((5, 20, 94, 200), (3, 5, 20, 94, 107, 400)):
        for r in range(c.n(80, 200) if n_a < 150 else 15):
            c.begin("random burst")
            a = G.age_grid(c.rng, n_a)
            if r % 4 == 3:
                a = np.round(np.linspace(c.rng.uniform(-1, 0), 1.3, n_a), 5)   # grid misses the burst
            sw = c.rng.uniform(0, 1, n_a) ** 3
            sw = G.r6(sw / sw.sum())
            if r % 7 == 0:
                sw = np.zeros(n_a)
                sw[c.rng.integers(n_a)] = 1.0
            peak = c.rng.uniform(5.02, 7.9)
            mx = peak + 1 + (9 - (peak + 1)) * c.rng.uniform(0.02, 0.98)
            lgfb = c.rng.uniform(-7.9, -1.05)
            if r % 5 in (0, 1, 3) and r % 2:         # bursts of any strength, time and width
                lgfb = c.rng.choice([0.0, c.rng.uniform(-1, 0), c.rng.uniform(-25, -8)])
                peak = c.rng.uniform(3, 10)
                mx = peak + 10.0 ** c.rng.uniform(-1.5, 0.8)
            c.do("burst", lgfb=num(float("%.6g" % lgfb)), peak=num(float("%.6g" % peak)),
                 max=num(float("%.6g" % mx)), smooth=nums(sw), lgage=nums(a),
                 how=("tuple", "named", "u", "compute", "compute_u")[r % 5])
    c.validate("TR_Galaxy")
