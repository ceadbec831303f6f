"""C34: photometry of a galaxy is the weighted sum of its templates' photometry"""
import numpy as np

from .. import dust as DU
from .. import galaxy as G
from .. import phot as M
from ..composite import OPS  # noqa: F401
from ..core import num, nums
from ..cosmo import ran_universe

LAWS = ["calzetti", "leitherer", "noll", "salim", "triweight"]


def run(c):
    cs = c.model("MC_Composite")
    c.notes["samples"] = cs[:2]
    c.rng.shuffle(cs)
    for k in cs[: c.n(40, 400)]:
        # the model's galaxy: its shares as age weights are realised by a real
        # history; its templates, screen, filter and redshift are used as they are
        c.begin("model galaxy")
        c.do("adopt", t=["0.1", "4", "9", "13.8"],
             sfr=[num(1 + 10 * float(x)) for x in k["share"]] + ["1"])
        shp = np.array(k["shapes"], dtype="f8") * np.array(k["tmpl"], dtype="f8")[:, None]
        fl = np.stack([shp[[0, 1, 0]], shp[[2, 3, 2]], shp[[1, 2, 3]]])
        c.do("compose", mode="ln", lgmet="-2.4", lgz=[], scatter="0.3",
             lgmets=["-3", "-2.4", "-1.5"], lgage=["-1", "0.3", "0.9"], tobs="13.0", sfrmin="",
             flux=nums(fl), ws=k["ws"], wfs=[k["wf"]], tfs=[k["tf"]], z=k["z"],
             c=["0.3", "-1", "0", "0.7"], law=k["law"], av=k["av"], floor="0",
             p=["0.85", "-0.2", "0.2175", "0.035"] if k["law"] in ("noll", "salim") else [])
    shapes = c.n(((6, 3, 4, 6, 2, 4), (20, 4, 8, 15, 3, 8), (5, 3, 3, 250, 1, 5), (5, 3, 60, 5, 1, 4), (150, 3, 3, 5, 1, 4), (5, 3, 3, 5000, 1, 5), (5, 20, 100, 5, 1, 4)),
                 ((6, 3, 4, 6, 2, 4), (20, 4, 8, 15, 3, 8), (40, 3, 12, 40, 2, 20), (4, 3, 3, 4, 1, 3),
                  (5, 3, 3, 1500, 1, 5), (5, 3, 150, 5, 1, 4), (500, 3, 3, 5, 1, 4), (5, 3, 3, 12000, 1, 5), (5, 60, 100, 5, 1, 4), (4500, 3, 3, 5, 1, 4)))
    for n_t, n_m, n_a, n_w, n_f, n_fw in shapes:
        for r in range(c.n(70, 150) if max(n_t - 100, n_a, n_w) < 45 else 1 if max(n_m * n_a, n_w, n_t) > 1500 else c.n(3, 10)):
            c.begin("random galaxy")
            t, s = G.galaxy(c.rng, n_t)
            a, to = G.age_grid(c.rng, n_a), G.t_obs(c.rng, t)
            if max(n_m * n_a, n_w, n_t) > 1500:            # quiet ones, which are always resolved
                t, s = G.r6(np.linspace(0.1, 13.7, n_t)), G.r6(c.rng.uniform(0.3, 3, n_t))
                a, to = G.r6(np.linspace(-2.5, 1.05, n_a)), 12.5
            c.do("adopt", t=nums(t), sfr=nums(s))
            w, _ = M.spectrum(c.rng, n_w)
            z = float("%.4g" % (10 ** c.rng.uniform(-2, 0.7)))
            fs = [M.filt(c.rng, n_fw, w, z if c.rng.random() < 0.5 else 0.0) for _ in range(n_f)]
            law = LAWS[c.rng.integers(5)]
            p = []
            if law in ("noll", "salim"):
                p = nums(G.r6([c.rng.uniform(0, 3), c.rng.uniform(-0.6, 0.6), 0.2175, 0.035]))
            elif law == "triweight":
                p = ["-1", "1.15", "0.5", "0.5", "-0.65", "-1.95"]
            mode = ("ln", "mt")[r % 2]
            scale = 1.0 if r % 3 else 10.0 ** c.rng.integers(-40, 25)     # whatever the units
            c.do("compose", mode=mode, lgmet=num(float("%.6g" % c.rng.uniform(-4, -1))),
                 lgz=nums(G.r6(c.rng.uniform(-4, -1, n_t))),
                 scatter=num(float("%.4g" % 10 ** c.rng.uniform(-1.5, 0.3))),
                 lgmets=nums(G.met_grid(c.rng, n_m)), lgage=nums(a),
                 tobs=num(to),
                 sfrmin="" if r % 3 else num(float("%.3g" % 10 ** c.rng.uniform(-14, 0))),
                 flux=nums(scale * G.fluxes(c.rng, n_m, n_a, n_w)), ws=nums(w),
                 wfs=[nums(a) for a, _ in fs], tfs=[nums(b) for _, b in fs], z=num(z),
                 c=nums(ran_universe(c.rng)), law=law, p=p, av=num(min(DU.ran_av(c.rng), 5.0)),
                 floor=num(DU.ran_floor(c.rng)))
    c.validate("TR_Composite")
