"""C33: synthetic data"""
from .. import emlines as M
from ..emlines import OPS  # noqa: F401


def run(c):
    M.D()
    cs = c.model("MC_Fake")
    c.notes["samples"] = cs[:2]
    rng = c.rng
    c.begin("filters")
    c.do("fake_filters")
    rng.shuffle(cs)
    for k in cs[: c.n(6, 30)]:
        c.begin("model history")
        for n in k["hist"]:
            c.do("fake", n=n, default=bool(rng.random() < 0.5), pick=int(rng.integers(1 << 30)))
    c.begin("sizes")
    for n in [0, 1, 166] + [int(v) for v in rng.integers(2, c.n(300, 900), c.n(4, 40))] + \
            [int(v) for v in rng.integers(1000, 2500, c.n(1, 6))]:
        c.do("fake", n=n, default=bool(rng.random() < 0.5), pick=int(rng.integers(1 << 30)))
    c.validate("TR_EmLines")
