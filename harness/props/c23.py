"""C23: what a template file holds is what is returned"""
from .. import loader as M
from ..loader import OPS  # noqa: F401


def run(c):
    M.D()
    sims = c.model("MC_Loader", cfg="MC_LoaderSim.cfg", workers=1,
                   extra=("-simulate", "num=%d" % c.n(20, 200), "-depth", str(c.n(16, 42)),
                          "-seed", str(c.seed)))
    c.notes["samples"] = sims[:1]
    rng = c.rng
    for k in sims:
        M.begin(c, "random history", ["A", "B"])
        M.replay(c, k["hist"], lambda v, one: M.ssp_data(rng, *((0, (1, 2, 3), "float64") if one else ())), "ssp")
    for r in range(c.n(60, 800)):
        M.begin(c, "write, read, rewrite, read", ["A"])
        for q in range(3):
            c.do("write", dir="A", name="f.h5", fresh=bool(q % 2), dated=bool(r % 2),
                 data=M.ssp_data(rng, 0, (2, 1, 3), "float64") if r % 4 == 1 else
                 M.ssp_data(rng, (0, None, None)[q]),
                 how="" if r % 4 == 1 else str(rng.choice(["", "packed", "more"])),
                 names=str(rng.choice(["S", "vlen"])))
            c.do("load_ssp", a={"fn": ["A", "f.h5"], "drn": "None", "bn": "None"}, dummy=False,
                 style=str(rng.choice(M.STYLES)))
        for q in (1, 2, 3):
            if q <= len(c.state["held"]):
                c.do("recall", k=q)
    # many lines
    for n in c.n((40, 300), (40, 166, 300, 1000)):
        M.begin(c, "many lines", ["A"])
        c.do("write", dir="A", name="f.h5", data=M.ssp_data(rng, n), fresh=False, how="", names="S")
        c.do("load_ssp", a={"fn": ["A", "f.h5"], "drn": "None", "bn": "None"}, dummy=False, style="abs")
    # large libraries
    for shape in c.n(((5, 20, 30), (2, 3, 700), (300, 1, 2), (2, 300, 1)), ((5, 20, 30), (2, 3, 700), (300, 1, 2), (2, 300, 1), (22, 60, 40), (2, 2, 6000))):
        for lines in (0, 3):
            M.begin(c, "large library", ["A"])
            c.do("write", dir="A", name="f.h5", data=M.ssp_data(rng, lines, shape, None if lines else "float64"), fresh=False,
                 how=str(rng.choice(["", "packed"])), names="S")
            c.do("load_ssp", a={"fn": ["A", "f.h5"], "drn": "None", "bn": "None"}, dummy=False, style="abs")
    c.validate("TR_Loader")
