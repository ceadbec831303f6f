"""C24: transmission curves"""
from .. import loader as M
from ..loader import OPS  # noqa: F401

DIRS = ["A", "A/filters", "B[1]"]


def run(c):
    M.D()
    cs = c.model("MC_FilterFiles")
    sims = c.model("MC_FilterFiles", cfg="MC_FilterFilesSim.cfg", workers=1,
                   extra=("-simulate", "num=%d" % c.n(100, 1000), "-depth", str(c.n(15, 41)),
                          "-seed", str(c.seed)))
    c.notes["samples"] = cs[:1] + sims[:1]
    rng = c.rng
    rng.shuffle(cs)
    tab = c.model("MC_LoadTable", cfg="MC_LoadTableFilters.cfg")
    rng.shuffle(tab)
    tab = [k for k in tab if len(k["files"]) < 4] if c.quick else tab
    M.table(c, tab[: c.n(1500, 10 ** 6)], ["A", "A/filters", "B"],
            lambda d, n: M.filter_data(rng, "ok"), "load_filter", "decision table")
    for k in cs[: c.n(200, 5000)]:
        M.begin(c, "model history", DIRS)
        M.replay(c, k["hist"], lambda v, one: M.filter_data(rng, v, 4 if one else None), "filter")
    for k in sims:
        M.begin(c, "random history", DIRS)
        M.replay(c, k["hist"], lambda v, one: M.filter_data(rng, v, 4 if one else None), "filter")
    for r in range(c.n(80, 800)):
        M.begin(c, "one curve", ["A"])
        for q in range(3):
            c.do("write", dir="A", name="f.h5", data=M.filter_data(rng, n=5 if r % 2 else None),
                 fresh=False, dated=bool(r % 2), how="" if r % 2 else str(rng.choice(["", "packed"])),
                 names="S")
            c.do("load_filter", a={"fn": ["A", "f.h5"], "drn": "None", "pat": "None"},
                 style=str(rng.choice(M.STYLES)))
    for n in c.n((60, 3000, 20000), (60, 700, 5000, 60000)):
        for kind in ("ok", "dips", "negative", "above", "at", "nan", "infinite")[: 7 if n < 10000 else 2]:
            M.begin(c, "long curve", ["A"])
            c.do("write", dir="A", name="f.h5", data=M.filter_data(rng, kind, n), fresh=False, how="", names="S")
            c.do("load_filter", a={"fn": ["A", "f.h5"], "drn": "None", "pat": "None"}, style="abs")
    for k in range(c.n(60, 600)):
        M.odd_names(c, "load_filter", lambda: M.filter_data(rng, "ok"))
    M.links(c, c.model("MC_Links", cfg="MC_LinksFilters.cfg"), "load_filter",
            lambda: M.filter_data(rng, "ok"), c.n(30, 10 ** 6))
    # several files a pattern may or may not tell apart
    bases, exts = ["lsst_r", "lsst_r_old", "r", "LSST_r", "lsst_r.v2"], [".h5", ".hdf5", ".h5.bak",
                                                                        ".H5", "", "~", ".txt"]
    for r in range(c.n(60, 600)):
        M.begin(c, "files alike", DIRS)
        d = str(rng.choice(DIRS))
        if d == "A/filters":
            c.do("env", dir="A")
        names = sorted({str(rng.choice(bases)) + str(rng.choice(exts))
                        for _ in range(int(rng.integers(2, 5)))})
        for n in names:
            # some of them no data files: interrupted downloads, notes
            junk = {"junk": str(rng.choice(["", "not a curve"]))} if rng.random() < 0.3 else None
            c.do("write", dir=d, name=n, data=junk or M.filter_data(rng, "ok"), fresh=False, how="", names="S")
        for q in range(4):
            n = str(rng.choice(names))
            pat = {0: n, 1: n[:3] + "*", 2: "*" + n[-2:], 3: n.split(".")[0] + "*",
                   4: n.split(".")[0] + ".*", 5: "?" * len(n), 6: "*_r*"}[int(rng.integers(7))]
            c.do("load_filter", a={"fn": [], "drn": "None" if d == "A/filters" and rng.random() < 0.5
                                   else d, "pat": pat}, style=str(rng.choice(M.STYLES)))
            if rng.random() < 0.3 and len(names) > 1:
                c.do("remove", dir=d, name=names.pop(int(rng.integers(len(names)))))
    c.validate("TR_Loader")
