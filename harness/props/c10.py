"""C10: mass-metallicity parameters"""
import numpy as np

from .. import params as M
from ..core import nums
from ..params import OPS  # noqa: F401


def run(c):
    M.cases(c, "MC_ParamsMzr.cfg", "mzr", c.n(300, 2000))
    M.walk(c, "mzr", c.n(25, 120), c.n(6, 20), 30.0)
    M.walk(c, "mzr", c.n(8, 60), c.n(6, 20), 300.0)
    full = np.stack([M.MZR_LO[:5], M.MZR_HI[:5]], axis=1)
    for g in range(c.n(3, 12)):
        c.begin("random draws")
        mid = 0.5 * (full[:, 0] + full[:, 1])
        narrow = np.round(np.stack([mid - 0.01 * (g + 1), mid + 0.003], axis=1), 6)
        seeds = [str(s) for s in c.rng.integers(0, 2**31 - 1, c.n(4, 10))]
        for s in seeds:
            c.do("mzr_ran", seed=s, bounds=nums(full), default=True)
            c.do("mzr_ran", seed=s, bounds=nums(narrow))
        for s in reversed(seeds):
            c.do("mzr_ran", seed=s, bounds=nums(narrow))
            c.do("mzr_ran", seed=s, bounds=nums(full))
    c.validate("TR_Params")
