"""C22: which template file is read"""
import numpy as np

from .. import loader as M
from ..loader import OPS  # noqa: F401

DIRS = ["A", "B"]


def run(c):
    M.D()
    cs = c.model("MC_Loader")
    sims = c.model("MC_Loader", cfg="MC_LoaderSim.cfg", workers=1,
                   extra=("-simulate", "num=%d" % c.n(60, 800), "-depth", str(c.n(16, 42)),
                          "-seed", str(c.seed)))
    # fewer places, so that one file is loaded, replaced and loaded again
    sims += c.model("MC_Loader", cfg="MC_LoaderOneSim.cfg", workers=1,
                    extra=("-simulate", "num=%d" % c.n(60, 800), "-depth", "16", "-seed", str(c.seed)))
    c.notes["samples"] = cs[:1] + sims[:1]
    rng = c.rng

    def data(v, dated=False):
        # the version is told by the contents
        d = M.ssp_data(rng, lines=int(rng.integers(0, 3))) if not dated else \
            M.ssp_data(rng, 0, (2, 2, 3), "float64")             # of one size
        d["lgmet"]["v"][0] = "-1.5" if v == "v1" else "-2.5"
        return dict(d, lgmet=dict(d["lgmet"], dt="float64"))

    rng.shuffle(cs)
    tab = c.model("MC_LoadTable")
    sizes = iter(range(10 ** 9))

    def marked(d, n):
        # told apart by size and contents
        return M.ssp_data(rng, 0, shape=(1, 1, 1 + next(sizes) % 5))

    M.table(c, tab, DIRS, marked, "load_ssp", "decision table", c.n(45, 96))
    for k in cs[: c.n(150, 4000)]:
        M.begin(c, "model history", DIRS)
        M.replay(c, k["hist"], data, "ssp")
    for k in sims:
        M.begin(c, "random history", DIRS)
        M.replay(c, k["hist"], data, "ssp")
    for k in range(c.n(60, 600)):
        M.odd_names(c, "load_ssp", lambda: marked("", ""))
    M.links(c, c.model("MC_Links"), "load_ssp", lambda: marked("", ""), c.n(30, 10 ** 6))
    # dummy data, asked for in every circumstance, and its absence
    M.begin(c, "dummy", DIRS)
    c.do("write", dir="A", name="x.h5", data=data("v1"), fresh=False, how="", names="S")
    none = {"fn": [], "drn": "None", "bn": "None"}
    for a in (none, dict(none, fn=["A", "x.h5"]), dict(none, drn="A", bn="x.h5"), dict(none, drn="B")):
        for env in ("None", "A"):
            c.do("env", dir=env)
            c.do("load_ssp", a=a, dummy=True, style="abs")
            c.do("load_ssp", a=a, dummy=False, style="abs")
    c.validate("TR_Loader")
