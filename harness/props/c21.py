"""C21: surviving and remnant mass"""
import numpy as np

from .. import lines as M
from ..core import nums
from ..lines import OPS  # noqa: F401

IMFS = ["salpeter", "chabrier", "kroupa", "van_dokkum"]


def run(c):
    cs = c.model("MC_Imf")
    c.notes["samples"] = cs[:2]
    for imf in IMFS + [""]:
        c.begin("model aging")
        a = [k["lga"] for k in cs if k["imf"] == (imf or "chabrier")]
        for part in range(0, len(a), 40):
            c.do("imf", imf=imf, lga=a[part: part + 40], scalar=False)
        for x in a[::13]:
            c.do("imf", imf=imf, lga=[x], scalar=True)
    rng = c.rng
    for r in range(c.n(200, 1000)):
        c.begin("random ages and fits")
        lga = np.round(rng.choice([0, 1]) * rng.uniform(5.5, 10.5, 12) + rng.choice([0.0, 1e-6]), 5)
        lga = np.where(lga == 0, np.round(rng.uniform(0, 13, 12), 5), lga)
        c.do("imf", imf=IMFS[r % 4], lga=nums(np.sort(lga)), scalar=False)
        if r % 5 == 0:
            lga = np.round(rng.uniform(-6, 20, 12), 4)
        ps = [rng.uniform(0.05, 0.4), rng.uniform(6, 9), rng.uniform(-1, 1), rng.uniform(0.02, 0.3),
              rng.uniform(0.01, 0.3), rng.uniform(5, 8), rng.uniform(-0.5, 1), rng.uniform(0, 0.05)]
        pr = [rng.uniform(-2.5, -1), rng.uniform(5.5, 8.5), rng.uniform(-0.5, 1.5), rng.uniform(0.2, 2),
              rng.uniform(0, 0.5)]
        c.do("fit", lga=nums(lga), ps=nums(np.round(ps, 5)), pr=nums(np.round(pr, 5)))
        if r % 20 == 0:
            n = int(rng.choice([600, 3000, 20000]))
            c.do("imf", imf=IMFS[r // 20 % 4], lga=nums(np.round(np.sort(rng.uniform(5.5, 10.5, 12)), 5)),
                 scalar=False, among=n)
            c.do("fit", lga=nums(lga), ps=nums(np.round(ps, 5)), pr=nums(np.round(pr, 5)), among=n)
    c.begin("many ages at once")
    c.do("imf", imf="", lga=nums(np.round(np.sort(rng.uniform(4, 11, 400)), 5)), scalar=False)
    c.validate("TR_Imf")
