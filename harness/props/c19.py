"""C19: Planck's law"""
import numpy as np

from .. import dust as M
from ..core import num, nums
from ..dust import OPS  # noqa: F401

C = 299792458.0


def run(c):
    cs = c.model("MC_Blackbody")
    c.notes["samples"] = cs[:2]
    temps = sorted({k["temp"] for k in cs}, key=float)
    for x in sorted({k["x"] for k in cs}, key=float):
        c.begin("model sweep")
        nu = [k["nu"] for k in cs if k["x"] == x]
        aa = [k["aa"] for k in cs if k["x"] == x]
        for t in temps:
            c.do("bb", nu=nu, aa=aa, temp=t, paired=True)
    rng = c.rng
    for n in (6, 25, 300):
        for r in range(c.n(100, 400) if n < 100 else 4):
            c.begin("random bodies")
            t0 = 10.0 ** rng.uniform(-1, 9)
            # x = h nu / k T from the deep Rayleigh-Jeans to the deep Wien tail
            x = 10.0 ** (rng.uniform(-18, 3.3, n) if r % 3 else rng.uniform(-9, 1, n))
            nu = M.g6(x * t0 * 2.0836619e10)
            aa = M.g6(C / nu * 1e10)
            for t in sorted(t0 * 10.0 ** rng.uniform(-1, 1, 3)):
                c.do("bb", nu=nums(nu), aa=nums(aa), temp=num(float("%.6g" % t)), paired=False,
                     **({} if n != 25 or r % 10 else dict(among=int(rng.choice([1500, 9000, 50000])))))
    for r in range(c.n(20, 200)):
        c.begin("peaks")
        for k in range(4):
            c.do("wien", temp=num(float("%.6g" % 10.0 ** rng.uniform(0, 7))))
    c.validate("TR_Dust")
