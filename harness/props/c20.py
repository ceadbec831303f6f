"""C20: equivalent widths"""
import numpy as np

from .. import lines as M
from ..core import dec, nums
from ..lines import OPS  # noqa: F401


def run(c):
    cs = c.model("MC_Lines")
    c.notes["samples"] = cs[:2]
    c.rng.shuffle(cs)
    for i, k in enumerate(cs[: c.n(300, 1503)]):
        if i % 20 == 0:
            c.begin("model spectra")
        c.do("ew", w=k["w"], f=k["f"], g=k["g"], how="")
    rng = c.rng
    for n in (14, 40, 120, 600):
        for r in range(c.n(60, 300) if n < 500 else c.n(3, 12)):
            c.begin("random spectrum and windows")
            w, f, g = M.line_scene(rng, n)
            a = dict(w=nums(w), g=nums(g))
            c.do("ew", f=nums(f), how="", **a)
            used = ((w >= g[0]) & (w <= g[2])) | ((w >= g[3]) & (w <= g[4])) | ((w >= g[5]) & (w <= g[6]))
            h = np.where(used, f, rng.choice([0.0, 1e3, -5.0]))
            c.do("ew", f=nums(h), how="outside", **a)
            c.do("ew", f=nums(8 * h), how="x8", **a)
    c.validate("TR_Lines")
