"""C31: building blocks"""
import numpy as np

from .. import kernels as M
from ..core import num, nums
from ..kernels import OPS  # noqa: F401


def run(c):
    cs = c.model("MC_Kernels")
    c.notes["samples"] = cs[:2]
    edges = ["0.0", "1.0", "1.5", "3.0", "7.0", "8.0"]
    for sig in sorted({k["sig"] for k in cs}):
        c.begin("model blob")
        xs = [k["x"] for k in cs if k["sig"] == sig]
        for part in range(0, len(xs), 12):
            c.do("hist", x=xs[part: part + 12], sig=sig, edges=edges)
        for m in xs[::5]:
            c.do("tw", x=xs[::4] + edges, m=m, h=sig, p=["0.5", "1.5", "-2.0", "3.0"])
    rng = c.rng
    g7 = M.g7
    for r in range(c.n(60, 700)):
        c.begin("random arguments")
        n = (1, 7, 15)[r % 3]
        m, h = rng.normal(0, 3), 10.0 ** rng.uniform(-3, 2)
        x = m + h * rng.choice([-3, 3, 0, rng.uniform(-3.5, 3.5), rng.normal(0, 4)], n) + \
            h * rng.choice([0, 0, 1], n) * rng.normal(0, 1, n)
        c.do("tw", x=nums(g7(x)), m=num(g7(m)[0]), h=num(g7(h)[0]), p=nums(g7(rng.normal(0, 3, 4))),
             **(dict(among=int(rng.choice([1500, 20000]))) if r % 10 == 3 else {}))
        if r % 3 == 0:                   # very narrow and very wide ones
            h = 10.0 ** rng.uniform(-30, 12)
            m = h * rng.choice([0, rng.normal(0, 3)])
            x = m + h * rng.choice([0.0, rng.uniform(-3.5, 3.5), rng.normal(0, 2)], n)
            c.do("tw", x=nums(g7(x)), m=num(g7(m)[0]), h=num(g7(h)[0]), p=nums(g7(rng.normal(0, 3, 4))))
        x0, k = g7([rng.normal(0, 5), rng.choice([-1, 1, 1]) * 10.0 ** rng.uniform(-2, 2)])
        p = g7(rng.normal(0, 5, 4))
        # fractions of the way between the bounds, to be inverted
        f = g7(np.concatenate([rng.uniform(0, 1, 3), [1e-6, 1 - 1e-6, 0.5]]))
        tiny = 10.0 ** -rng.uniform(7, 13)
        f = np.concatenate([f, [tiny, 1 - tiny]])
        x = x0 + rng.choice([0.1, 1, 10, 1000]) / k * rng.normal(0, 1, n)
        y = p[2] + (p[3] - p[2]) * f
        c.do("sig", x=nums(g7(x)), x0=num(x0), k=num(k), p=nums(p), f=nums(f), y=nums(y),
             **(dict(among=int(rng.choice([1500, 20000]))) if r % 10 == 7 else {}))
        e = np.unique(g7(np.cumsum(rng.uniform(0.01, 2, rng.integers(2, 12))) + rng.normal(0, 3)))
        if len(e) < 2:
            e = np.array([0.0, 1.0])
        sg = g7(10.0 ** rng.uniform(-2, 1))[0]
        x = rng.uniform(e[0] - 5 * sg, e[-1] + 5 * sg, n)
        c.do("hist", x=nums(g7(x)), sig=num(sg), edges=nums(e))
        if r % 20 == 0:                  # many narrow bins
            ne = int(rng.integers(200, 900))
            q = np.unique(g7(np.cumsum(rng.uniform(0.2, 1, ne)) * 10.0 ** rng.uniform(-2.5, 0)))
            c.do("hist", x=nums(g7(rng.uniform(q[0], q[-1], 2))), sig=num(g7((q[-1] - q[0]) * 10.0 ** rng.uniform(-3, -0.5))[0]),
                 edges=nums(q))
        nm = int(rng.integers(3, 20) if r % 20 else rng.integers(100, 400))
        mids = g7(np.cumsum(10.0 ** rng.uniform(-2, 1, nm)) + rng.normal(0, 5))
        c.do("bins", m=nums(mids), lo=num(g7(mids[0] - rng.uniform(0, 20))[0]),
             hi=num(g7(mids[-1] + rng.uniform(0, 20))[0]))
        nt = (1, 2, 3, 12, 40)[r % 5] if r % 20 else 600
        xx = np.sort(rng.uniform(0, 10, nt)) if r % 2 else rng.normal(0, 5, nt)
        c.do("integ", x=nums(g7(xx)), y=nums(g7(rng.normal(0, 1, nt) * 10.0 ** rng.uniform(-5, 5))))
        nb, s1, s2, s3 = (int(v) for v in rng.integers(1, 5, 4))
        c.do("outer", a=nums(g7(rng.normal(0, 1, nb * s1)).reshape(nb, s1)),
             b=nums(g7(rng.normal(0, 1, nb * s2)).reshape(nb, s2)),
             c=nums(g7(rng.normal(0, 1, nb * s3)).reshape(nb, s3)))
        n = int(rng.integers(1, 9))
        a = 10.0 ** rng.uniform(-3, 2, n)
        b = a * (1 + 10.0 ** rng.uniform(-1, 2, n))
        g = rng.choice([-1, 1], n) * np.where(rng.random(n) < 0.5, rng.uniform(0.1, 4, n),
                                              10.0 ** rng.uniform(-3, 0, n))
        seed = int(rng.integers(2 ** 31))
        a, b, g = g7(a), g7(b), g7(g)
        c.do("plaw", x=nums(g7(a + (b - a) * rng.uniform(0, 1, n))), a=nums(a), b=nums(b), g=nums(g),
             seed=seed, u=M.uniform(seed, n), one=int(rng.integers(n)))
    for r in range(c.n(3, 20)):
        c.begin("time tables")
        c.do("timetab", t0=num(float("%.6g" % rng.uniform(0.5, 20))))
    c.validate("TR_Kernels")
