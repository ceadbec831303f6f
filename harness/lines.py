"""Equivalent widths and IMF fits on the real code."""

import numpy as np

from .core import among, Lenient, arr, dec, import_dsps, num, nums

_D = {}


def D():
    if not _D:
        import_dsps()
        from dsps.em_lines import equivalent_width
        from dsps.imf import remnant_mass, surviving_mstar

        _D.update(ew=Lenient(equivalent_width), rem=remnant_mass, sur=surviving_mstar)
    return _D


def ew(c, i):
    e = D()["ew"]
    w, f, g = dec(i["w"]), dec(i["f"]), [float(x) for x in i["g"]]
    a = e._ew_kernel(w, f, *g)
    b = e._continuum_line_decomp_kern(w, f, *g)
    return {"ew": num(a[0]), "flux": num(a[1]), "ew2": num(b[0]), "flux2": num(b[1]),
            "cont": num(b[2]), "coefs": arr(b[3])}


def imf(c, i):
    d = D()
    a, pick = among(i, dec(i["lga"]))
    a = float(i["lga"][0]) if i["scalar"] else a
    ks = kr = {}
    if i["imf"]:
        ks = getattr(d["sur"], i["imf"].upper() + "_PARAMS")
        kr = getattr(d["rem"], i["imf"].upper() + "_PARAMS")
    return {"s": arr(pick(d["sur"].surviving_mstar(a, **ks))),
            "r": arr(pick(d["rem"].remnant_mass(a, **kr)))}


def fit(c, i):
    d = D()
    a, pick = among(i, dec(i["lga"]))
    return {"s": arr(pick(d["sur"].surviving_mstar(a, *dec(i["ps"])))),
            "r": arr(pick(d["rem"].remnant_mass(a, *dec(i["pr"]))))}


OPS = dict(ew=ew, imf=imf, fit=fit)


def g6(x):
    return np.array([float("%.7g" % v) for v in np.atleast_1d(x)])


def line_scene(rng, n):
    """wavelengths, flux and windows; some window edges sit on pixels"""
    mid = rng.choice([4.0, rng.uniform(3000, 9000), rng.uniform(0.5, 3)])
    half = mid * 10.0 ** rng.uniform(-3.5, -0.2)
    k = rng.integers(3)
    if k == 0:
        w = np.linspace(mid - half, mid + half, n)
    elif k == 1:
        w = np.geomspace(mid - half, mid + half, n)
    else:
        w = np.sort(rng.uniform(mid - half, mid + half, n))
    w = np.unique(g6(w))
    n = len(w)
    # windows as fractions of the half width, in any order of overlap
    fr = np.sort(rng.uniform(0.02, 0.98, 3))
    lo = [mid - half * fr[2], mid - half * fr[1]]
    hi = [mid + half * fr[1] * rng.uniform(0.5, 1), mid + half * fr[2]]
    g = np.array([mid - half * fr[0], mid + half * rng.uniform(-0.2, 0.2) * fr[0], mid + half * fr[0] * rng.uniform(0.5, 1.2),
                  lo[0], lo[1], hi[0], hi[1]])
    odd = rng.random()
    if odd < 0.15:                      # the two windows share pixels
        g[4], g[5] = mid + half * rng.uniform(-0.9, 0.9) * fr[2], mid - half * rng.uniform(-0.2, 0.9) * fr[2]
    elif odd < 0.2:                     # one inside the other
        g[3:] = mid - half * fr[2], mid + half * fr[2], mid - half * fr[1], mid + half * fr[1]
    elif odd < 0.3:                     # one of them is empty, or they come the other way round
        g[3:] = (g[4], g[3], mid - half * 0.9, mid + half * 0.9) if odd < 0.25 else (g[5], g[6], g[3], g[4])
    g = g6(g)
    for q in (0, 2, 3, 4, 5, 6):
        if rng.random() < 0.4:
            g[q] = w[np.argmin(abs(w - g[q]))]
    u = (w - mid) / half
    base = rng.uniform(-1, 5) + rng.normal() * u + rng.normal() * u ** 2
    k = rng.integers(4)
    if k == 0:
        f = base
    elif k == 1:
        f = base + rng.normal(0, 0.3, n)
    elif k == 2:
        f = base + 10 ** rng.uniform(-2, 2) * np.exp(-0.5 * (u / (0.3 * fr[0])) ** 2)
    else:
        f = np.exp(rng.normal(0, 1) * u) + rng.normal(0, 0.05, n)
    return w, g6(f * 10.0 ** rng.choice([0, -8, 5])), g
