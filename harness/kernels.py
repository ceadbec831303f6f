"""The numerical building blocks of dsps.utils."""

import numpy as np

from .core import among, Lenient, arr, dec, import_dsps, num, nums

_D = {}


def D():
    if not _D:
        import_dsps()
        import jax

        from dsps import utils

        _D.update(u=Lenient(utils), jax=jax)
    return _D


def tw(c, i):
    u = D()["u"]
    x, pick = among(i, dec(i["x"]))
    m, h = float(i["m"]), float(i["h"])
    xtp, ytp, lo, hi = dec(i["p"])
    return {"c": arr(pick(u._tw_cuml_kern(x, m, h))), "g": arr(pick(u.triweight_gaussian(x, m, h))),
            "s": arr(pick(u._tw_sigmoid(x, m, h, lo, hi))),
            "l": arr(pick(u._tw_sig_slope(x, xtp, ytp, m, h, lo, hi)))}


def sig(c, i):
    u = D()["u"]
    x, pick = among(i, dec(i["x"]))
    x0, k = float(i["x0"]), float(i["k"])
    xtp, ytp, lo, hi = dec(i["p"])
    return {"s": arr(pick(u._sigmoid(x, x0, k, lo, hi))),
            "l": arr(pick(u._sig_slope(x, xtp, ytp, x0, k, lo, hi))),
            "i": arr(u._inverse_sigmoid(dec(i["y"]), x0, k, lo, hi))}


def hist(c, i):
    u = D()["u"]
    x, s, e = dec(i["x"]), float(i["sig"]), dec(i["edges"])
    return {"h": arr(u.triweighted_histogram(x, s, e)),
            "w": arr(u._get_triweights_singlepoint(x[0], s, e))}


def bins(c, i):
    u = D()["u"]
    m = D()["jax"].numpy.array(dec(i["m"]))
    return {"d": arr(u._jax_get_dt_array(m)),
            "e": arr(u._get_bin_edges(m, float(i["lo"]), float(i["hi"])))}


def integ(c, i):
    u = D()["u"]
    x, y = dec(i["x"]), dec(i["y"])
    return {"c": arr(u.cumtrapz(x, y)), "t": num(u.trapz(x, y))}


def outer(c, i):
    u = D()["u"]
    a, b, w = dec(i["a"]), dec(i["b"]), dec(i["c"])
    return {"d2": arr(u._get_weight_matrices_2d(a, b)),
            "d3": arr(u._get_weight_matrices_3d(a, b, w))}


def plaw(c, i):
    u, jax = D()["u"], D()["jax"]
    x, a, b, g = (dec(i[k]) for k in "xabg")
    k = int(i["one"])
    return {"p": arr(u.powerlaw_pdf(x, a, b, g)),
            # a whole curve of one power law, and one point of it
            "o": arr(u.powerlaw_pdf(x, float(a[k]), float(b[k]), float(g[k]))),
            "1": num(u.powerlaw_pdf(float(x[k]), float(a[k]), float(b[k]), float(g[k]))),
            "r": arr(u.powerlaw_rvs(jax.random.PRNGKey(int(i["seed"])), a, b, g))}


def timetab(c, i):
    from dsps.sed import stellar_age_weights
    r = Lenient(stellar_age_weights)._get_linspace_time_tables(float(i["t0"]))
    return {"t": arr(r[0]), "lgt": arr(r[1]), "dt": arr(r[2])}


OPS = dict(timetab=timetab, tw=tw, sig=sig, hist=hist, bins=bins, integ=integ, outer=outer, plaw=plaw)


def g7(x):
    return np.array([float("%.7g" % v) for v in np.atleast_1d(x)])


def uniform(seed, n):
    jax = D()["jax"]
    return nums(jax.random.uniform(jax.random.PRNGKey(int(seed)), (n,)))
