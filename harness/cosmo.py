"""Cosmology on the real code."""

import numpy as np

from .core import among, arr, dec, import_dsps, num, nums

_D = {}


def D():
    if not _D:
        import_dsps()
        import dsps.cosmology as pkg
        from dsps.cosmology import flat_wcdm

        _D.update(fw=flat_wcdm, pkg=pkg)
    return _D


def universe(c, i):
    c.state["c"] = tuple(float(x) for x in i["c"])
    return {}


def _one(f, z, *p):
    return arr(np.array([np.asarray(f(float(x), *p)).reshape(-1)[0] for x in z]))


def distances(c, i):
    fw, p, z = D()["fw"], c.state["c"], dec(i["z"])
    s = dict(dc=fw.comoving_distance_to_z, dl=fw.luminosity_distance_to_z,
             da=fw.angular_diameter_distance_to_z, mu=fw.distance_modulus_to_z)
    v = dict(dc=fw.comoving_distance, dl=fw.luminosity_distance,
             da=fw.angular_diameter_distance, mu=fw.distance_modulus)
    zs, pick = among(i, z)
    return {"one": {k: _one(f, z, *p) for k, f in s.items()},
            "many": {k: arr(pick(f(zs, *p))) for k, f in v.items()}}


def times(c, i):
    fw, p, z = D()["fw"], c.state["c"], dec(i["z"])
    zs, pick = among(i, z)
    return {"one": {"look": _one(fw.lookback_to_z, z, *p), "age": _one(fw.age_at_z, z, *p)},
            "many": {"look": arr(pick(fw.lookback_time(zs, *p))), "age": arr(pick(fw.age_at_z(zs, *p)))},
            "t0": num(fw.age_at_z0(*p))}


def today(c, i):
    pkg = D()["pkg"]
    p = tuple(float(x) for x in pkg.DEFAULT_COSMOLOGY)
    return {"today": num(pkg.TODAY), "c": [num(x) for x in p], "t0": num(pkg.age_at_z0(*p))}


def densities(c, i):
    fw, p, z = D()["fw"], c.state["c"], dec(i["z"])
    s = dict(rho=fw.rho_crit, tvir=fw.virial_dynamical_time,
             vol=fw.differential_comoving_volume_at_z, dc=fw.comoving_distance_to_z)
    v = dict(rho=fw.rho_crit, tvir=fw.virial_dynamical_time, vol=fw.differential_comoving_volume)
    zs, pick = among(i, z)
    return {"one": {k: _one(f, z, *p) for k, f in s.items()},
            "many": {k: arr(pick(f(zs, *p))) for k, f in v.items()}}


OPS = dict(universe=universe, distances=distances, times=times, today=today,
           densities=densities)


def ran_universe(rng, odd=False):
    k = rng.integers(8 if odd else 6)
    om = rng.uniform(0.15, 0.6)
    if k == 0:
        c = (om, -1.0, 0.0, rng.uniform(0.5, 1))
    elif k == 1:
        c = (om, rng.uniform(-1.3, -0.7), 0.0, rng.uniform(0.5, 1))
    elif k == 2:
        c = (1.0, -1.0, 0.0, rng.uniform(0.5, 1))
    elif k == 3:
        w0 = rng.uniform(-1.3, -0.7)
        c = (om, w0, rng.uniform(-0.5, min(0.5, -0.3 - w0)), rng.uniform(0.5, 1))
    elif k == 5:                                     # dark energy that was there early on
        w0 = rng.uniform(-1.2, -0.4)
        c = (rng.uniform(0.1, 0.6), w0, -w0 - rng.uniform(0.02, 0.2), rng.uniform(0.5, 1))
    elif k == 6:                                     # more matter than closes it
        c = (rng.uniform(1, 1.6), rng.uniform(-1.3, -0.7), 0.0, rng.uniform(0.5, 1))
    elif k == 7:                                     # hardly any matter, or none
        c = (rng.choice([0, rng.uniform(0, 0.05)]), rng.choice([-1.0, rng.uniform(-1.3, -0.7)]), 0.0,
             rng.uniform(0.5, 1))
    else:                                            # far from ours
        w0 = rng.choice([rng.uniform(-1.7, -0.4), rng.uniform(-3, -0.3)])
        c = (rng.uniform(0.05, 1), w0, rng.uniform(-1.2, max(-1.1, min(0.8, -0.1 - w0))),
             rng.uniform(0.3, 1.3))
    if rng.random() < 0.2:                           # slow and fast expansion
        c = (*c[:3], rng.choice([rng.uniform(0.2, 0.45), rng.uniform(0.9, 2)]))
    return np.round(c, 4)


def ran_z(rng, n, top=20.0):
    z = 10.0 ** rng.uniform(-4, np.log10(top), n)
    z[0] = 0.0
    if n > 3:
        z[1:3] = 20.0, top
        z[3] = 10.0 ** rng.uniform(-10, -4)       # next door
    return np.unique(np.array([float("%.5g" % x) for x in z]))


def drive(c, op):
    cs = c.model("MC_Cosmology")
    top = 1000.0 if op == "densities" else 100.0
    c.notes["samples"] = cs[:2]
    by = {}
    for k in cs:
        by.setdefault(tuple(k["c"]), []).append(k["z"])
    d = D()["fw"]
    for p in list(by):
        c.begin("model universe")
        c.do("universe", c=list(p))
        zs = sorted(by[p], key=float)
        c.do(op, z=zs)
        c.do(op, z=zs[2:4])
    for p in (d.PLANCK15, d.WMAP5, d.FSPS_COSMO):
        c.begin("shipped cosmology")
        c.do("universe", c=[num(x) for x in p])
        c.do(op, z=nums(ran_z(c.rng, 8, top)))
    for r in range(c.n(40, 400)):
        c.begin("random universe")
        u = ran_universe(c.rng, op == "densities")
        c.do("universe", c=nums(u))
        c.do(op, z=nums(ran_z(c.rng, 8, top)))
        c.do(op, z=nums(np.sort(ran_z(c.rng, 2, top))))
        if r % 2 == 0 and u[0] <= 1:    # times to come
            z = c.rng.choice([-1, -1, 1], 5) * c.rng.choice([0.5, 1e-3, 0.1], 5) * c.rng.uniform(0.05, 1, 5)
            c.do(op, z=nums(np.unique([float("%.5g" % x) for x in z])))
        if r % 10 == 0:                 # the same among many others
            c.do(op, z=nums(ran_z(c.rng, 8, top)), among=int(c.rng.choice([300, 1100, 5000, 30000])))
    return d
