"""Parameter transforms and the mass-metallicity relation on the real code."""

import numpy as np

from .core import Lenient, among, arr, dec, import_dsps, nums

_D = {}


def D():
    if not _D:
        import_dsps()
        import jax

        from dsps.metallicity import mzr, umzr
        from dsps.sfh import diffburst

        _D.update(umzr=umzr, mzr=mzr, db=Lenient(diffburst), jax=jax)
    return _D


BURST = ["lgfburst", "lgyr_peak", "lgyr_max"]
MZR = ["mzr_t0_ytp", "mzr_t0_x0", "mzr_t0_k", "mzr_t0_slope_lo", "mzr_t0_slope_hi",
       "c0_y_at_tlook_c", "c1_y_at_tlook_c", "c0_early_time_slope", "c1_early_time_slope"]


def names(kind, u=False):
    return [("u_" if u else "") + n for n in (BURST if kind == "burst" else MZR)]


def _bound(kind, u):
    d = D()
    if kind == "burst":
        return d["db"]._get_params_from_u_params(d["db"].BurstUParams(*u))
    return d["umzr"].get_bounded_mzr_params(d["umzr"].MZRUParams(*u))


def _unbound(kind, p):
    d = D()
    if kind == "burst":
        return d["db"]._get_u_params_from_params(d["db"].BurstParams(*p))
    return d["umzr"].get_unbounded_mzr_params(d["umzr"].MZRParams(*p))


def _v(t):
    return arr(np.array([float(x) for x in t]))


def bound(c, i):
    r = _bound(i["kind"], dec(i["u"]))
    return {"p": _v(r), "names": list(r._fields)}


def unbound(c, i):
    r = _unbound(i["kind"], dec(i["p"]))
    return {"u": _v(r), "names": list(r._fields)}


def round_(c, i):
    x = dec(i["x"])
    if i["from"] == "u":
        return {"x": _v(_unbound(i["kind"], _bound(i["kind"], x)))}
    return {"x": _v(_bound(i["kind"], _unbound(i["kind"], x)))}


def defaults(c, i):
    d = D()
    if i["kind"] == "burst":
        return {"p": _v(d["db"].DEFAULT_BURST_PARAMS), "u": _v(d["db"].DEFAULT_BURST_U_PARAMS)}
    return {"p": _v(d["umzr"].DEFAULT_MZR_PARAMS), "u": _v(d["umzr"].DEFAULT_MZR_U_PARAMS)}


def mzr_ran(c, i):
    d = D()
    key = d["jax"].random.PRNGKey(int(i["seed"]))
    b = dec(i["bounds"])
    if i.get("default"):
        return {"p": _v(d["umzr"].get_ran_t0_params(key))}
    pd = {n: (float(b[k, 0]), float(b[k, 1])) for k, n in enumerate(MZR[: len(b)])}
    return {"p": _v(d["umzr"].get_ran_t0_params(key, pd))}


def mzr(c, i):
    m = D()[i["impl"]]
    lgm, t, pick = among(i, dec(i["lgm"]), dec(i["t"]))
    p = [float(x) for x in i["p"]]
    if i["what"] == "t0":
        z = m.mzr_model_t0(lgm, *p[:5])
    elif i["what"] == "evol":
        z = m.mzr_evolution_model(lgm, t, *p[5:])
    else:
        z = m.mzr_model(lgm, t, *p)
    return {"z": arr(pick(z))}


def maiolino(c, i):
    f = D()["mzr"].maiolino08_metallicity_evolution
    return {"z": arr(f(dec(i["lgm"]), float(i["m0"]), float(i["k0"])))}


OPS = dict(bound=bound, unbound=unbound, round=round_, defaults=defaults, mzr_ran=mzr_ran,
           mzr=mzr, maiolino=maiolino)

MZR_LO = np.array([-1.0, 10.25, 0.5, 0.1, 0.0, -2, 0.0, -1.5, 0.0])
MZR_HI = np.array([0.25, 10.75, 2.0, 1.0, 0.3, -1, 0.5, -0.5, 0.5])


def inside(rng, kind, edge=0.01):
    """a bounded parameter vector strictly inside its bounds"""
    f = rng.uniform(edge, 1 - edge, 9)
    if kind == "burst":
        pk = 5 + 3 * f[1]
        return np.round([-8 + 7 * f[0], pk, pk + 1 + (8 - pk) * f[2]], 6)
    p = MZR_LO + (MZR_HI - MZR_LO) * f
    p[4] = p[3] * f[4]
    return np.round(p, 6)


def walk(c, kind, n, steps, scale):
    """a random walk through unbounded space, one coordinate at a time"""
    rng, d = c.rng, len(names(kind))
    for _ in range(n):
        c.begin("random walk in unbounded space")
        u = np.round(rng.normal(0, scale, d), 4)
        c.do("bound", kind=kind, u=nums(u), names=names(kind))
        for _ in range(steps):
            u = u.copy()
            k = rng.integers(d)
            u[k] = np.round(u[k] + rng.normal(0, scale / 2), 4)
            c.do("bound", kind=kind, u=nums(u), names=names(kind))
        c.do("round", kind=kind, x=nums(np.clip(u, -100, 100)), **{"from": "u"})
        p = inside(rng, kind)
        c.do("unbound", kind=kind, p=nums(p), names=names(kind, True))
        c.do("round", kind=kind, x=nums(p), **{"from": "p"})


def cases(c, module_cfg, kind, limit):
    cs = c.model("MC_Params", cfg=module_cfg)
    c.notes["samples"] = cs[:2]
    if len(cs) > limit:
        c.rng.shuffle(cs)
        cs = cs[:limit]
    for i, k in enumerate(cs):
        if i % 25 == 0:
            c.begin("model walk")
        c.do("bound", kind=kind, u=k["u"], names=names(kind))
        c.do("round", kind=kind, x=k["u"], **{"from": "u"})
    c.begin("defaults")
    c.do("defaults", kind=kind)
    d = D()
    dp = d["db"].DEFAULT_BURST_PARAMS if kind == "burst" else d["umzr"].DEFAULT_MZR_PARAMS
    c.do("unbound", kind=kind, p=nums(np.array(dp)), names=names(kind, True))
    c.do("round", kind=kind, x=nums(np.array(dp)), **{"from": "p"})
