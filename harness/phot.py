"""Photometry and filter utilities on the real code."""

import numpy as np

from .core import Lenient, arr, dec, import_dsps, num, nums

_D = {}


def D():
    if not _D:
        dsps = import_dsps()
        import jax

        from dsps.cosmology import flat_wcdm
        from dsps.data_loaders import load_random_transmission_curve
        from dsps.dust.utils import get_filter_effective_wavelength
        from dsps.photometry import photometry_kernels, photpop
        from dsps.photometry.utils import interpolate_filter_trans_curves

        _D.update(dsps=dsps, pk=Lenient(photometry_kernels), pp=photpop, fw=flat_wcdm, jax=jax,
                  resample=interpolate_filter_trans_curves,
                  effwave=get_filter_effective_wavelength,
                  rantrans=load_random_transmission_curve)
    return _D


def mags(c, i):
    d = D()
    a = dec(i["ws"]), dec(i["sed"]), dec(i["wf"]), dec(i["tf"])
    z, p = float(i["z"]), tuple(float(x) for x in i["c"])
    return {"rest": num(d["dsps"].calc_rest_mag(*a)), "flux": num(d["pk"].calc_rest_flux(*a)),
            "kmag": num(d["pk"]._calc_obs_mag_no_dimming(*a, z)),
            "obs": num(d["dsps"].calc_obs_mag(*a, z, *p)),
            "mu": num(d["fw"].distance_modulus_to_z(z, *p))}


def tables(c, i):
    d = D()
    a = dec(i["ws"]), dec(i["flux"]), dec(i["wfs"]), dec(i["tfs"])
    zs, p = dec(i["zs"]), tuple(float(x) for x in i["c"])
    pp = d["pp"]
    return {"rest": arr(pp.precompute_ssp_restmags(*a)),
            "k": arr(pp.precompute_ssp_restmags_z_kcorrect(*a, float(i["zk"]))),
            "obs": arr(pp.precompute_ssp_obsmags_on_z_table(*a, zs, *p)),
            "mu": [num(d["fw"].distance_modulus_to_z(float(z), *p)) for z in zs]}


def resample(c, i):
    dt = i.get("dt", "float64")         # wavelengths may be whole numbers
    w = [dec(x).astype(dt) for x in i["wfs"]]
    t = [dec(x) for x in i["tfs"]]
    n = int(i["n"])
    r = D()["resample"](w, t, n) if n else D()["resample"](w, t)
    return {"w": arr(r[0]), "t": arr(r[1])}


def effwave(c, i):
    return {"leff": num(D()["effwave"](dec(i["wf"]), dec(i["tf"]), float(i["z"])))}


def rantrans(c, i):
    d = D()
    kw = {}
    if i["seed"]:
        kw["ran_key"] = d["jax"].random.key(int(i["seed"]))
    if i["center"]:
        kw["tcurve_center"] = float(i["center"])
    if not i.get("defaults"):
        kw["wave_range"] = (float(i["lo"]), float(i["hi"]))
        kw["scale"] = float(i["scale"])
    r = d["rantrans"](**kw)
    return {"w": arr(r.wave), "t": arr(r.transmission)}


def dimtab(c, i):
    z, p = dec(i["z"]), tuple(float(x) for x in i["c"])
    pk = D()["pk"]
    return {"t": arr(pk._cosmological_dimming_from_table(z, dec(i["zt"]), dec(i["mt"]))),
            "d": arr(np.array([float(pk._cosmological_dimming(x, *p)) for x in z])),
            "mu": arr(np.array([float(D()["fw"].distance_modulus_to_z(x, *p)) for x in z]))}


OPS = dict(dimtab=dimtab, mags=mags, tables=tables, resample=resample, effwave=effwave, rantrans=rantrans)


def r6(x):
    return np.array([float("%.6g" % v) for v in np.atleast_1d(x)])


def incr(x):
    x = r6(np.sort(x))
    for k in range(1, len(x)):
        if x[k] <= x[k - 1]:
            x[k] = float("%.6g" % (x[k - 1] * 1.001))
    return x


def spectrum(rng, n):
    k = rng.integers(3)
    if k == 0:
        w = np.linspace(rng.uniform(80, 1500), rng.uniform(1e4, 3e4), n)
    elif k == 1:
        w = np.geomspace(rng.uniform(90, 2000), rng.uniform(8000, 1e5), n)
    else:
        w = rng.uniform(500, 20000, n)
    k = rng.integers(5)
    w = incr(w)
    if k == 0:
        f = np.full(n, 1.13492e-13)
    elif k == 1:
        f = (w / 5000.0) ** rng.uniform(-3, 3) * 10.0 ** rng.uniform(-8, 8)
    elif k == 2:
        f = 10.0 ** rng.uniform(-6, 0, n)
    elif k == 3:                                             # a line on nothing
        f = np.zeros(n)
        f[rng.integers(n)] = 1.0
    else:                                                    # a break
        f = np.where(w < rng.choice(w), 0.0, 10.0 ** rng.uniform(-5, 2))
    return w, r6(f)


def filt(rng, n, ws, z):
    """a filter somewhere around the spectrum seen at redshift z"""
    lo, hi = ws[0] * (1 + z), ws[-1] * (1 + z)
    k = rng.integers(6)
    if k == 0:                                               # over its blue end
        a, b = lo * rng.uniform(0.4, 0.99), lo * rng.uniform(1.05, 3)
    elif k == 1:                                             # over its red end
        a, b = hi * rng.uniform(0.3, 0.95), hi * rng.uniform(1.01, 2)
    elif k == 2:                                             # narrow
        a = rng.uniform(lo, max(lo, 0.9 * hi))
        b = a * 1.01
    else:
        a = rng.uniform(lo, max(lo, 0.7 * hi))
        b = a * rng.uniform(1.05, 1.6)
    w = incr(np.linspace(a, b, n)) if rng.uniform() < 0.5 else incr(rng.uniform(a, b, n))
    k = rng.integers(3)
    if k == 0:
        t = np.ones(n)
    elif k == 1:
        t = np.exp(-0.5 * ((w - w.mean()) / (0.3 * (b - a))) ** 2)
    else:
        t = rng.uniform(0, 1, n)
    t[rng.integers(n)] = 1.0
    return w, r6(t)
