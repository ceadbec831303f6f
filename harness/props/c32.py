"""C32: filter utilities"""
import numpy as np

from .. import phot as M
from ..core import num, nums
from ..phot import OPS  # noqa: F401


def run(c):
    cs = c.model("MC_Filters")
    c.notes["samples"] = cs[:2]
    for k in cs:
        c.begin("model filters")
        c.do("resample", wfs=k["wfs"], tfs=k["tfs"], n=k["n"])
        for w, t in zip(k["wfs"], k["tfs"]):
            c.do("effwave", wf=w, tf=t, z="0.5")
    for r in range(c.n(120, 400)):
        c.begin("random filters")
        fs = []
        for _ in range(int(c.rng.integers(1, 5))):
            w, _ = M.spectrum(c.rng, 10)
            fs.append(M.filt(c.rng, int(c.rng.integers(3, 20)), w, 0.0))
        wfs, tfs = [nums(a) for a, _ in fs], [nums(b) for _, b in fs]
        c.do("resample", wfs=wfs, tfs=tfs, n=0)
        c.do("resample", wfs=wfs, tfs=tfs, n=int(c.rng.integers(2, 40)))
        if r < 3:
            c.do("resample", wfs=wfs[:1], tfs=tfs[:1], n=(9000, 300, 2500)[r])
        # wavelengths stored as whole Angstroms
        whole = [nums(np.unique(np.round(a))) for a, _ in fs]
        if all(len(a) > 2 for a in whole):
            c.do("resample", wfs=whole, tfs=[b[: len(a)] for a, b in zip(whole, tfs)],
                 n=int(c.rng.integers(1, 40)), dt=str(c.rng.choice(["int64", "int32", ">i4"])))
    for n in c.n((5, 20, 300), (3, 5, 20, 100, 1500)):
        for r in range(c.n(40, 100) if n < 200 else 5):
            c.begin("effective wavelengths")
            w, _ = M.spectrum(c.rng, 10)
            wf, tf = M.filt(c.rng, n, w, 0.0)
            if r % 5 == 1:              # from red to blue
                wf, tf = wf[::-1].copy(), tf[::-1].copy()
            for z in ("0", num(float("%.4g" % c.rng.choice([c.rng.uniform(0, 6), c.rng.uniform(-0.5, 0)])))):
                c.do("effwave", wf=nums(wf), tf=nums(tf), z=z)
    for r in range(c.n(10, 60)):
        c.begin("random transmission curves")
        seeds = [str(int(s)) for s in c.rng.integers(1, 2**31 - 1, c.n(5, 12))]
        lo, hi = float(c.rng.integers(800, 3000)), float(c.rng.integers(6000, 20000))
        # the range holds four to forty widths
        sc = num(float("%.3g" % ((hi - lo) / c.rng.choice([4.5, 6, 10, 40]))))
        mid = num(float("%.5g" % c.rng.uniform(lo + 100, hi - 100)))
        asks = [dict(seed=s, lo=num(lo), hi=num(hi), scale=sc, center=m)
                for s in seeds for m in ("", mid)]
        asks.append(dict(seed=seeds[0], lo="1000.0", hi="10000.0", scale="300", center="",
                         defaults=True))
        asks.append(dict(seed="", lo="1000.0", hi="10000.0", scale="300", center=mid if
                         1000 < float(mid) < 10000 else "5000", defaults=True))
        for a in asks + asks[::-1]:
            c.do("rantrans", **a)
    for r in range(c.n(60, 300)):
        c.begin("filters with faint wings and leaks")
        w, _ = M.spectrum(c.rng, 10)
        wf, tf = M.filt(c.rng, int(c.rng.choice([4, 20, 60])), w, 0.0)
        faint = c.rng.uniform(size=tf.size) < 0.6
        faint[np.argmax(tf)] = False
        tf = np.where(faint, [float("%.4g" % x) for x in 10 ** c.rng.uniform(-9, -2, tf.size)], tf)
        if c.rng.uniform() < 0.3:       # transmission in percent, or as an effective area
            tf = np.array([float("%.6g" % x) for x in tf * c.rng.choice([100, 1e4, 1e-6])])
        for z in ("0", num(float("%.4g" % c.rng.choice([c.rng.uniform(0, 6), c.rng.uniform(-0.5, 0)])))):
            c.do("effwave", wf=nums(wf), tf=nums(tf), z=z)
        c.do("resample", wfs=[nums(wf)], tfs=[nums(tf)], n=int(c.rng.integers(5, 60)))
    c.validate("TR_Photometry")
