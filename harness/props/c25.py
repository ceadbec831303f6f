"""C25: emission-line tables and subsets"""
import string

import numpy as np

from .. import emlines as M
from ..core import arr, nums
from ..emlines import OPS  # noqa: F401
from ..loader import g7

LIST = "dsps/data/emlines_info.dat"


def make(c, names):
    rng = c.rng
    nz, na, nw = (int(v) for v in rng.integers(1, 4, 3))
    if rng.random() < 0.3 and len(names) < 20:
        nz = na = len(names)               # equal axes
    rest = [arr(g7(rng.normal(0, 1, sh))) for sh in ((nz,), (na,), (nw,), (nz, na, nw))]
    ldt = str(rng.choice(["float64", "float64", "float32"]))
    lum = 10.0 ** rng.uniform(-30, 30, (nz, na, len(names)))
    if rng.random() < 0.3:                 # no light, or absorption
        lum *= rng.choice([0, -1, 1], lum.shape)
    c.do("make", names=names, lwave=nums(np.round(rng.uniform(900, 1e6, len(names)), int(rng.integers(0, 9)))),
         llum=nums(g7(lum).astype(ldt)), rest=rest,
         jax=bool(rng.random() < 0.5), ldt=ldt)


def word(rng):
    return str(rng.choice(list(string.ascii_letters))) + "".join(
        rng.choice(list(string.ascii_letters + string.digits + "_"), int(rng.integers(0, 8)))) + "x"


def near_miss(rng, name):
    """a name that is not there although it looks like one that is"""
    return str(rng.choice(["unknown_line", name.swapcase(), name.lower(), name.upper(),
                           name[:-1] or "x", name + "_", name + "x", name[1:] + "y",
                           name.replace("_", "") + "0"]))


def label(rng):
    w = "".join(rng.choice(list(string.ascii_letters + string.digits), int(rng.integers(1, 6))))
    parts = [w]
    for _ in range(int(rng.integers(0, 4))):
        parts.append(str(rng.choice(["-", " ", ".", "[", "]", "", "--", ". ", "[]"])))
        parts.append("".join(rng.choice(list(string.ascii_letters + string.digits),
                                        int(rng.integers(1, 4)))))
    s = "".join(parts)
    return ("[%s]" % s) if rng.random() < 0.2 else s


def safe(s):
    for a, b in (("-", "_"), (" ", "_"), (".", "p"), ("[", ""), ("]", "")):
        s = s.replace(a, b)
    return s


def run(c):
    M.D()
    cs = c.model("MC_EmLines")
    c.notes["samples"] = cs[:2]
    rng = c.rng
    rng.shuffle(cs)
    cs.sort(key=lambda k: len(set(sum(k["hist"], []))) * 0)      # keep the shuffle
    for k in cs[: c.n(500, 6000)]:
        c.begin("model history")
        make(c, ["Ha", "Hb", "OIII", "NII"])
        for w in k["hist"]:
            c.do("subset", want=w, how=str(rng.choice(["list", "tuple"])))
    for r in range(c.n(60, 600)):
        c.begin("random chain")
        n = int(rng.integers(1, 12) if r % 20 else rng.integers(130, 400))
        names = sorted({word(rng) for _ in range(n)})
        rng.shuffle(names)
        make(c, names)
        for _ in range(int(rng.integers(1, 4))):
            m = int(rng.integers(1, len(names) + 1))
            want = [str(x) for x in rng.choice(names, m, replace=False)]
            if rng.random() < 0.25:
                k = int(rng.integers(m))
                want[k] = near_miss(rng, want[k])
                if len(set(want)) < m or want[k] in names:
                    continue
                c.do("subset", want=want, how="list")
                continue
            c.do("subset", want=want, how=str(rng.choice(["list", "tuple"])))
            names = want
    c.begin("the shipped list")
    for t in (False, True):
        c.do("parse", path=LIST, text=M.read_list(LIST), testmode=t, eol="\n", last="\n")
    for r in range(c.n(40, 400)):
        c.begin("random list")
        text, seen = [], set()
        for _ in range(int(rng.integers(1, 9))):
            s = label(rng)
            if safe(s) in seen:
                continue
            seen.add(safe(s))
            w = str(rng.choice(["%.3f", "%.7g", "%d", "%.12f", "%.3e"])) % 10.0 ** rng.uniform(2.9, 6)
            text.append(rng.choice(["", " ", "\t"]) + w + "," + s + str(rng.choice(["", " ", "  "])))
        c.do("parse", path="", text=[str(t) for t in text], testmode=bool(r % 2),
             eol=str(rng.choice(["\n", "\n", "\r\n"])), last=str(rng.choice(["\n", ""])))
    c.validate("TR_EmLines")
