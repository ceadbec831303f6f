"""C13: magnitude tables"""
import numpy as np

from .. import phot as M
from ..core import num, nums
from ..cosmo import ran_universe
from ..phot import OPS  # noqa: F401


def run(c):
    cs = c.model("MC_Tables")
    c.notes["samples"] = cs[:2]
    for k in cs:
        c.begin("model table")
        c.do("tables", **k)
    shapes = c.n(((2, 3, 4, 5, 8, 5), (3, 2, 5, 2, 30, 12), (2, 2, 2, 40, 5, 4), (2, 2, 20, 2, 5, 4), (1, 30, 2, 2, 5, 4), (30, 1, 2, 2, 5, 4), (2, 2, 2, 2, 500, 6),
                  (1, 2, 1, 150, 5, 4), (1, 150, 1, 2, 5, 4), (150, 1, 1, 2, 5, 4), (1, 1, 150, 2, 5, 4)),
                 ((2, 3, 4, 5, 8, 5), (3, 2, 5, 2, 30, 12), (1, 1, 1, 1, 6, 4),
                  (5, 4, 3, 2, 60, 20), (2, 2, 2, 2, 10, 10), (2, 2, 2, 40, 5, 4), (2, 2, 20, 2, 5, 4), (1, 30, 2, 2, 5, 4),
                  (30, 1, 2, 2, 5, 4), (2, 2, 2, 2, 2500, 6),
                  (1, 2, 1, 400, 5, 4), (1, 400, 1, 2, 5, 4), (400, 1, 1, 2, 5, 4), (1, 1, 400, 2, 5, 4)))
    for n_m, n_a, n_f, n_z, n_w, n_fw in shapes:
        for r in range(c.n(16, 60) if max(n_m, n_a, n_f, n_z, n_w - 50) < 10 else c.n(2, 10)):
            c.begin("random tables")
            w, _ = M.spectrum(c.rng, n_w)
            fl = M.r6(10.0 ** c.rng.uniform(-4, 1, n_m * n_a * n_w)).reshape(n_m, n_a, n_w)
            z = np.array([float("%.4g" % x) for x in 10.0 ** c.rng.uniform(*((-2, 0.8) if r % 2 else (-6, 2)), n_z)])
            zk = 0.0 if r % 3 == 0 else float("%.3g" % (c.rng.uniform(0, 2) if r % 3 == 1 else 10.0 ** c.rng.uniform(-7, 0)))
            if r % 8 == 5:              # towards us
                zk = float("%.3g" % -(10.0 ** c.rng.uniform(-4, -0.3)))
            fs = [M.filt(c.rng, n_fw, w, zk) for _ in range(n_f)]
            # in percent, as effective areas, or just faint
            tr = [M.r6(b * s) for (_, b), s in zip(fs, c.rng.choice([1, 1, 100, 4e4, 1e-3], n_f))]
            c.do("tables", ws=nums(w), flux=nums(fl), wfs=[nums(a) for a, _ in fs],
                 tfs=[nums(b) for b in tr], zs=nums(z), zk=num(zk),
                 c=nums(ran_universe(c.rng)))
    c.validate("TR_Photometry")
