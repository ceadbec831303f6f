"""C12: AB magnitudes"""
from .. import phot as M
from ..core import num, nums
from ..cosmo import ran_universe
from ..phot import OPS  # noqa: F401

PLANCK = ["0.3075", "-1", "0", "0.6774"]


def run(c):
    cs = c.model("MC_Photometry")
    c.notes["samples"] = cs[:2]
    c.rng.shuffle(cs)
    for i, k in enumerate(cs[: c.n(400, 4000)]):
        if i % 20 == 0:
            c.begin("model observations")
        sed = nums(float(k["scale"]) * M.dec(k["sed"]))
        c.do("mags", ws=k["ws"], sed=sed, wf=k["wf"], tf=k["tf"], z=k["z"], c=PLANCK)
    for n_w, n_f in c.n(((12, 6), (60, 25), (600, 8), (9, 250), (10000, 8), (9, 3000)), ((12, 6), (60, 25), (3, 3), (300, 60), (3000, 8), (9, 1500), (20000, 8), (9, 6000))):
        for r in range(c.n(2, 6) if max(n_w, n_f) > 2500 else c.n(5, 30) if n_w > 200 or n_f > 200 else c.n(100, 300)):
            c.begin("random source and filter")
            w, f = M.spectrum(c.rng, n_w)
            z = float("%.4g" % (10.0 ** c.rng.uniform(*((-3, 1.1) if r % 3 else (-9, 2))))) if r % 5 else 0.0
            if r % 7 == 4:              # it comes towards us
                z = float("%.4g" % -(10.0 ** c.rng.uniform(-4, -0.3)))
            wf, tf = M.filt(c.rng, n_f, w, z if r % 2 else 0.0)
            p = nums(ran_universe(c.rng))
            if r % 4 == 1:              # in whatever units
                tf = M.r6(tf * c.rng.choice([100, 1e-4, 1e-8, 1e-12, 1e6]))
                f = M.r6(f * 10.0 ** c.rng.integers(-40, 40))
            if r % 6 == 1:              # from red to blue
                wf, tf = wf[::-1].copy(), tf[::-1].copy()
            c.do("mags", ws=nums(w), sed=nums(f), wf=nums(wf), tf=nums(tf), z=num(z), c=p)
            # brighter, through the same filter with another throughput
            c.do("mags", ws=nums(w), sed=nums(f * 1024.0), wf=nums(wf), tf=nums(tf * 0.25),
                 z=num(z), c=p)
            # different where the filter does not look
            g = f.copy()
            g[(w * (1 + z) < wf.min()) | (w * (1 + z) > wf.max())] *= 5.0
            c.do("mags", ws=nums(w), sed=nums(g), wf=nums(wf), tf=nums(tf), z=num(z), c=p)
    for r in range(c.n(15, 150)):
        c.begin("dimming")
        zt = M.r6(c.rng.uniform(0.001, 1)) + M.r6(c.rng.uniform(0.1, 2, c.rng.integers(2, 9))).cumsum()
        z = c.rng.uniform(0.01, zt[-1] * 1.2, 5)
        c.do("dimtab", z=nums(M.r6(z)), zt=nums(M.r6(zt)),
             mt=nums(M.r6(c.rng.uniform(30, 52, len(zt)))), c=nums(ran_universe(c.rng)))
    c.validate("TR_Photometry")
