"""C26: retrieval from FSPS, export, reload"""
import numpy as np

from .. import emlines as M
from ..core import nums
from ..emlines import OPS  # noqa: F401
from ..loader import g7
from .c25 import LIST


def offer(c, nz, lines):
    rng = c.rng
    raw = M.read_list(LIST)
    w = np.array([float(t.split(",")[0]) for t in raw])
    na, nw = (int(v) for v in rng.integers(1, 5, 2))
    lw = []
    if lines:
        gap = np.array([np.min(np.abs(np.delete(w, k) / w[k] - 1)) for k in range(len(w))])
        free = np.flatnonzero(gap > 4e-6)
        pick = rng.choice(free, int(rng.integers(1, 12)), replace=False)
        if rng.random() < 0.5:
            pick = np.sort(pick)
        lw = list(w[pick] * (1 + rng.choice([0, 0, 4e-7, -4e-7, 9e-7], len(pick))))
    c.do("fsps", cfg={"zlegend": nums(g7(np.sort(10.0 ** rng.uniform(-4.5, -1.3, nz)))),
                      "log_age": nums(g7(np.sort(rng.uniform(5, 10.3, na)))),
                      "wave": nums(g7(np.sort(rng.uniform(91, 1e8, nw)))),
                      "lines": bool(lines), "lwave": nums(lw)}, list=raw)


def keywords(c, kw, gas=False):
    rng = c.rng
    ks = [] if kw == "0" else [str(k) for k in rng.permutation(["gas_logz", "gas_logu"] + (
        [] if gas else ["imf_type", "dust2"]))[: rng.integers(1, 3 if gas else 5)]]
    return [{"k": k, "v": str(int(rng.integers(3))) if k == "imf_type" else
             str(rng.choice(["0.0", "-2.0", "0.25", "-0.5"]))} for k in ks]


def run(c):
    M.D()
    cs = c.model("MC_Fsps")
    c.notes["samples"] = cs[:2]
    rng = c.rng
    for r in range(c.n(2, 20)):
        for k in cs:
            c.begin("model library")
            names = ["a.h5", "b.h5"]
            held = []
            # retrieve, export, load; then another library over the same file
            for step in range(2):
                k2 = k if step == 0 else cs[int(rng.integers(len(cs)))]
                offer(c, int(k2["nz"]) if r % 2 == 0 else int(rng.integers(1, 6)), k2["lines"])
                kws = keywords(c, k2["kw"])
                dflt = bool(k2["neb"] and rng.random() < 0.5)
                c.do("retrieve", neb=k2["neb"], kws=kws, default=dflt)
                name = names[0] if rng.random() < 0.7 else names[1]
                c.do("export", name=name, kws=keywords(c, k2["kw"], gas=True),
                     last=bool(rng.random() < 0.3))
                if name not in held:
                    held.append(name)
                for f in held:
                    c.do("load", name=f)
    c.validate("TR_EmLines")
