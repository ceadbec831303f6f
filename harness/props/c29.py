"""C29: gradients"""
import numpy as np

from .. import dust as DU
from .. import galaxy as G
from .. import lines as LI
from .. import params as PA
from .. import phot as M
from ..core import num, nums
from ..cosmo import ran_universe
from ..grads import OPS  # noqa: F401


def ask(c, q, x, n_y, const, rel=True):
    x = G.r6(x)
    d = c.rng.uniform(-1, 1, len(x)) * (np.where(x == 0, 1.0, np.abs(x)) if rel else 1.0)
    if c.rng.random() < 0.4:                       # one parameter alone
        one = np.zeros(len(x))
        one[c.rng.integers(len(x))] = 1.0
        d = d * one
    c.do("grad", q=q, x=nums(x), d=nums(G.r6(d)), v=nums(G.r6(c.rng.uniform(-1, 1, n_y))),
         c=const)


def smin(c):
    return num(float("%.3g" % c.rng.choice([1e-14, 1e-14, 1e-6, 1e-3])))


def galaxy_grads(c, r):
    n_t, n_m, n_a, n_w = c.n(((6, 3, 4, 3), (12, 4, 8, 4)),
                             ((6, 3, 4, 3), (12, 4, 8, 4), (40, 6, 20, 3)))[r % c.n(2, 3)]
    t, s = G.galaxy(c.rng, n_t)
    a, m = G.age_grid(c.rng, n_a), G.met_grid(c.rng, n_m)
    to = G.t_obs(c.rng, t)
    sc = float("%.4g" % 10 ** c.rng.uniform(-1.3, 0.3))
    z = float("%.6g" % c.rng.choice([c.rng.uniform(-4, -1), -20.0, 20.0, m[0], m[-1] + 0.01]))
    ask(c, "mass", s, n_t, dict(t=nums(t)))
    ask(c, "mass_time", np.append(t, s), n_t, dict(n=n_t))
    base = dict(t=nums(t), n=n_t, smin=smin(c), lgage=nums(a))
    ask(c, "age", np.append(s, to), n_a, base)
    ask(c, "mdf", [z, sc], n_m, dict(lgmets=nums(m)))
    base = dict(base, lgmets=nums(m), flux=nums(G.fluxes(c.rng, n_m, n_a, n_w)))
    ask(c, "sed_ln", np.concatenate([s, [z, sc, to]]), n_w, base)
    ask(c, "sed_mt", np.concatenate([s, G.r6(c.rng.uniform(-4, -1, n_t)), [sc, to]]), n_w, base)


def burst_grads(c, r):
    n_a = (6, 20)[r % 2]
    a = G.age_grid(c.rng, n_a)
    sm = c.rng.uniform(0, 1, n_a)
    const = dict(smooth=nums(G.r6(sm / sm.sum())), lgage=nums(a))
    peak = c.rng.uniform(5, 8)
    ask(c, "burst", [c.rng.choice([-8.0, -3.0, -1.0, -300.0, c.rng.uniform(-8, -1)]), peak,
                     c.rng.uniform(peak + 0.9, 9)], n_a, const)
    ask(c, "burst_u", c.rng.normal(0, 30, 3) + [-2, 6.5, 8], n_a, const)
    ask(c, "bound", c.rng.normal(0, c.rng.choice([5, 50, 500]), 3), 3, dict(kind="burst"), rel=False)
    ask(c, "bound", c.rng.normal(0, c.rng.choice([5, 50, 500]), 9), 9, dict(kind="mzr"), rel=False)
    for kind, n in (("burst", 3), ("mzr", 9)):
        ask(c, "unbound", PA.inside(c.rng, kind), n, dict(kind=kind))
    u = PA.D()["umzr"]
    p = np.array([float(x) for x in u.DEFAULT_MZR_PARAMS]) * c.rng.uniform(0.9, 1.1, 9)
    ask(c, "mzr", np.concatenate([p, [c.rng.uniform(7, 12), c.rng.uniform(0.1, 15)]]), 1, {})


def phot_grads(c, r):
    n_w, n_f = ((6, 5), (20, 12))[r % 2]
    w, s = M.spectrum(c.rng, n_w)
    s = np.where(s == 0, s.max() * 1e-3, s)
    z = float("%.5g" % 10 ** c.rng.uniform(-2, 0.5))
    wf, tf = M.filt(c.rng, n_f, w, 0.0)
    k = dict(ws=nums(w), wf=nums(wf), tf=nums(tf))
    ask(c, "restmag", s, 1, k)
    wf, tf = M.filt(c.rng, n_f, w, z)
    k = dict(ws=nums(w), wf=nums(wf), tf=nums(tf))
    ask(c, "kmag", np.append(s, z), 1, dict(k, n=n_w))
    u = ran_universe(c.rng)
    ask(c, "obsmag", np.append(z, u), 1, dict(k, sed=nums(G.r6(s))))
    ask(c, "distance", np.append(z, u), 4, {})
    ask(c, "halo", np.append(z, u), 5, {})
    ask(c, "effwave", np.append(z, tf), 1, dict(wf=nums(wf)))


def dust_grads(c, r):
    law = ("calzetti", "leitherer", "noll", "salim", "triweight")[r % 5]
    p = []
    if law in ("noll", "salim"):
        p = [c.rng.choice([0.0, 0.85, c.rng.uniform(-3, 5)]), c.rng.choice([0.0, c.rng.uniform(-1, 1)]),
             0.2175, 0.035]
    elif law == "triweight":
        p = [-1, 1.15, 0.5, 0.5, -0.65, -1.95]
    w = DU.ran_waves(c.rng, 8)
    if law == "triweight":
        w = 10.0 ** c.rng.uniform(-1.5, 0.5, 8)
    av = c.rng.choice([0.0, 1.0, c.rng.uniform(0, 3), 1e-8, 30.0])
    ask(c, "dust", np.concatenate([[av, c.rng.choice([0.0, c.rng.uniform(0, 1)])], p]), 8,
        dict(w=nums(G.r6(w)), law=law))
    nu = 10.0 ** c.rng.uniform(6, 17, 6)
    ask(c, "blackbody", [10.0 ** c.rng.uniform(1, 5)], 12, dict(nu=nums(G.r6(nu))))
    w, f, g = LI.line_scene(c.rng, 14 if r % 2 else 40)
    ask(c, "ew", f, 5, dict(w=nums(w), g=nums(g)))
    d = LI.D()
    imf = ("SALPETER", "CHABRIER", "KROUPA", "VAN_DOKKUM")[r % 4]
    ask(c, "surviving", [c.rng.uniform(5, 10.2), *getattr(d["sur"], imf + "_PARAMS").values()], 1, {})
    ask(c, "remnant", [c.rng.uniform(5, 10.2), *getattr(d["rem"], imf + "_PARAMS").values()], 1, {})


def run(c):
    cs = c.model("MC_Gradient")
    c.notes["samples"] = cs[:2]
    for k in cs:
        c.begin("model galaxy")
        n = len(k["sfr"])
        c.do("grad", q="mass", x=k["sfr"], d=k["d"], v=["1"] * n, c=dict(t=k["t"]))
        c.do("grad", q="age", x=k["sfr"] + [k["tobs"]], d=k["d"] + ["0"],
             v=["1"] + ["0"] * (len(k["lgage"]) - 1),
             c=dict(t=k["t"], n=n, smin=k["smin"], lgage=k["lgage"]))
    for r in range(c.n(36, 240)):
        for part in (galaxy_grads, burst_grads, phot_grads, dust_grads):
            c.begin(part.__name__)
            part(c, r)
    c.validate("TR_Grad")
