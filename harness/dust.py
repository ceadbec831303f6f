"""Dust attenuation and the blackbody on the real code."""

import numpy as np

from .core import Lenient, among, arr, dec, import_dsps, num, nums

_D = {}


def D():
    if not _D:
        import_dsps()
        from dsps.dust import att_curves, blackbody

        _D.update(a=Lenient(att_curves), bb=blackbody)
    return _D


def dust(c, i):
    a = D()["a"]
    w, pick = among(i, dec(i["w"]))
    av, floor = float(i["av"]), float(i["floor"])
    p = [float(x) for x in i["p"]]
    law = i["law"]
    if law == "calzetti":
        k, att = a.calzetti00_k_lambda(w), a.calzetti00_att_curve(w, av)
    elif law == "leitherer":
        k, att = a.leitherer02_k_lambda(w), a.leitherer02_att_curve(w, av)
    elif law == "noll":
        k, att = a.noll09_k_lambda(w, *p), a.noll09_k_att_curve(w, av, *p)
    elif law == "salim":
        k, att = a.sbl18_k_lambda(w, *p), a.sbl18_k_att_curve(w, av, *p)
    else:
        k = a._l02_below_c00_above(w) if law == "joined" else a.triweight_k_lambda(w, *p)
        att = a._att_curve_from_k_lambda(k, av)
    return {"k": arr(pick(k)), "a": arr(pick(att)),
            "t": arr(pick(a._frac_transmission_from_k_lambda(k, av, floor)))}


def ftrans(c, i):
    a = D()["a"]
    k, av = dec(i["k"]), float(i["av"])
    ext = (float(i["floor"]),) if i["floor"] else ()
    return {"t": arr(a._frac_transmission_from_k_lambda(k, av, *ext)),
            "a": arr(a._att_curve_from_k_lambda(k, av))}


def pieces(c, i):
    a = D()["a"]
    w, b = dec(i["w"]), dec(i["bump"])
    return {"plaw": arr(a.power_law_vband_norm(w, float(i["slope"]), float(i["v"]))),
            "drude": arr(a._drude_bump(w, *b)),
            "joined": arr(a._l02_below_c00_above(w, float(i["xc"]))),
            "eb": num(a._get_eb_from_delta(float(i["slope"])))}


def bb(c, i):
    b = D()["bb"]
    t = float(i["temp"])
    nu, pick = among(i, dec(i["nu"]))
    aa, pick2 = among(i, dec(i["aa"]))
    return {"bnu": arr(pick(b.blackbody_freq_density(nu, t))),
            "blam": arr(pick2(b.blackbody_wave_density(aa, t)))}


def wien(c, i):
    b = Lenient(D()["bb"])
    t = float(i["temp"])
    return {"nu": num(b._jax_bb_frequency_peak(t)), "m": num(b._jax_bb_wavelength_peak(t))}


OPS = dict(dust=dust, ftrans=ftrans, pieces=pieces, bb=bb, wien=wien)

LAWS = ["calzetti", "leitherer", "joined", "noll", "salim", "triweight"]


def g6(x):
    return np.array([float("%.7g" % v) for v in np.atleast_1d(x)])


def ran_waves(rng, n):
    """micron; crowded around the places where the curves switch"""
    k = rng.integers(4)
    if k == 0:
        w = 10.0 ** rng.uniform(-3, 4.5, n)
    elif k == 1:
        w = rng.choice([0.15, 0.63, 0.55, 0.2175, 0.0912, 2.2], n) * (
            1 + rng.choice([0, 1e-3, -1e-3, 1e-6, -1e-6, 1e-2, -1e-2], n))
    elif k == 2:
        w = np.linspace(rng.uniform(0.05, 0.3), rng.uniform(0.5, 3), n)
    else:
        w = rng.uniform(0.1, 0.7, n)
    return g6(w)


def ran_par(rng, law):
    if law == "triweight":
        if rng.random() < 0.4:
            return []
        return nums(g6([rng.uniform(-2, 0), rng.uniform(0, 2), rng.uniform(-0.5, 1),
                        10.0 ** rng.uniform(-1.5, 0.3), rng.uniform(-1.5, 0.3),
                        rng.uniform(-3, 0)]))
    if law in ("noll", "salim"):
        ampl = rng.choice([0.0, 0.85, rng.uniform(-5, 5), rng.uniform(0, 50), -rng.uniform(0, 40)])
        slope = rng.choice([0.0, -0.2, rng.uniform(-1.5, 1.5), rng.uniform(-0.5, 0.5)])
        p = [ampl, slope]
        if rng.random() < 0.5:
            p += [rng.uniform(0.1, 0.4), 10.0 ** rng.uniform(-2.5, -0.5)]
        return nums(g6(p))
    return []


def ran_av(rng):
    return float("%.5g" % rng.choice([0.0, 1.0, rng.uniform(0, 3), 10.0 ** rng.uniform(-8, 0),
                                      rng.uniform(3, 300)]))


def ran_floor(rng):
    return float("%.5g" % rng.choice([0.0, 0.0, 1.0, rng.uniform(0, 1), rng.uniform(0, 0.01)]))
