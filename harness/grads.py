"""Automatic derivatives of the public quantities of the real code."""

import numpy as np

from . import dust as DU
from . import galaxy as G
from . import lines as LI
from . import params as PA
from . import phot as M
from .core import arr, dec, import_dsps

_D = {}


def D():
    if not _D:
        dsps = import_dsps()
        import jax
        import jax.numpy as jnp

        _D.update(jax=jax, jnp=jnp, dsps=dsps)
    return _D


def quantity(q, c):
    """the quantity named q as a function of its parameter vector"""
    d = D()
    jnp, dsps = d["jnp"], d["dsps"]
    k = {n: (v if n in ("n", "kind", "law") else (float(v) if isinstance(v, str) else jnp.array(dec(v))))
         for n, v in c.items()}
    n = k.get("n")
    if q == "mass":
        return lambda x: dsps.cumulative_mstar_formed(k["t"], x)
    if q == "mass_time":
        return lambda x: dsps.cumulative_mstar_formed(x[:n], x[n:])
    if q == "age":
        return lambda x: dsps.calc_age_weights_from_sfh_table(
            k["t"], x[:n], k["lgage"], x[n], sfr_min=k["smin"])
    if q == "mdf":
        return lambda x: dsps.calc_lgmet_weights_from_lognormal_mdf(x[0], x[1], k["lgmets"])
    if q == "sed_ln":
        return lambda x: dsps.calc_rest_sed_sfh_table_lognormal_mdf(
            k["t"], x[:n], x[n], x[n + 1], k["lgmets"], k["lgage"], k["flux"], x[n + 2],
            sfr_min=k["smin"]).rest_sed
    if q == "sed_mt":
        return lambda x: dsps.calc_rest_sed_sfh_table_met_table(
            k["t"], x[:n], x[n:2 * n], x[2 * n], k["lgmets"], k["lgage"], k["flux"], x[2 * n + 1],
            sfr_min=k["smin"]).rest_sed
    db = G.D()["db"]
    if q == "burst":
        return lambda x: db.calc_bursty_age_weights(
            db.BurstParams(x[0], x[1], x[2]), k["smooth"], k["lgage"])
    if q == "burst_u":
        return lambda x: db.calc_bursty_age_weights_from_u_params(
            db.BurstUParams(x[0], x[1], x[2]), k["smooth"], k["lgage"])
    if q == "bound":
        return lambda x: jnp.array(list(PA._bound(k["kind"], [x[i] for i in range(x.size)])))
    if q == "mzr":
        u = PA.D()["umzr"]
        return lambda x: jnp.atleast_1d(u.mzr_model(x[9], x[10], *[x[i] for i in range(9)]))
    if q == "restmag":
        return lambda x: jnp.atleast_1d(dsps.calc_rest_mag(k["ws"], x, k["wf"], k["tf"]))
    if q == "kmag":
        pk = M.D()["pk"]
        return lambda x: jnp.atleast_1d(
            pk._calc_obs_mag_no_dimming(k["ws"], x[:n], k["wf"], k["tf"], x[n]))
    if q == "obsmag":
        return lambda x: jnp.atleast_1d(dsps.calc_obs_mag(
            k["ws"], k["sed"], k["wf"], k["tf"], x[0], x[1], x[2], x[3], x[4]))
    if q == "distance":
        fw = M.D()["fw"]
        return lambda x: jnp.array([f(x[0], x[1], x[2], x[3], x[4]).reshape(()) for f in (
            fw.comoving_distance_to_z, fw.distance_modulus_to_z, fw.lookback_to_z, fw.age_at_z)]
            )
    if q == "halo":
        fw = M.D()["fw"]
        return lambda x: jnp.array([jnp.asarray(f(x[0], x[1], x[2], x[3], x[4])).reshape(()) for f in (
            fw.rho_crit, fw.virial_dynamical_time, fw.differential_comoving_volume_at_z,
            fw.luminosity_distance_to_z, fw.angular_diameter_distance_to_z)])
    if q == "ew":
        e = LI.D()["ew"]

        def widths(x):
            g = [k["g"][j] for j in range(7)]
            ew, flux, mid, _ = e._continuum_line_decomp_kern(k["w"], x, *g)
            return jnp.array([flux, ew, mid, *e._ew_kernel(k["w"], x, *g)[1::-1]])

        return widths
    if q == "unbound":
        return lambda x: jnp.array(list(PA._unbound(k["kind"], [x[i] for i in range(x.size)])))
    if q == "dust":
        a = DU.D()["a"]
        f = {"noll": a.noll09_k_lambda, "salim": a.sbl18_k_lambda,
             "triweight": a.triweight_k_lambda, "calzetti": a.calzetti00_k_lambda,
             "leitherer": a.leitherer02_k_lambda}[k["law"]]
        return lambda x: a._frac_transmission_from_k_lambda(
            f(k["w"], *[x[i] for i in range(2, x.size)]), x[0], x[1])
    if q == "blackbody":
        b = DU.D()["bb"]
        aa = 299792458.0 / k["nu"] * 1e10
        return lambda x: jnp.concatenate([b.blackbody_freq_density(k["nu"], x[0]),
                                          b.blackbody_wave_density(aa, x[0])])
    if q == "surviving":
        return lambda x: jnp.atleast_1d(LI.D()["sur"].surviving_mstar(
            x[0], *[x[i] for i in range(1, 9)]))
    if q == "remnant":
        return lambda x: jnp.atleast_1d(LI.D()["rem"].remnant_mass(
            x[0], *[x[i] for i in range(1, 6)]))
    if q == "effwave":
        return lambda x: jnp.atleast_1d(M.D()["effwave"](k["wf"], x[1:], x[0]))
    raise KeyError(q)


def grad(c, i):
    jax, jnp = D()["jax"], D()["jnp"]
    f = quantity(i["q"], i["c"])
    x, d, v = (jnp.array(dec(i[k])) for k in ("x", "d", "v"))
    y, dy = jax.jvp(f, (x,), (d,))
    y2, back = jax.vjp(f, x)
    g = back(v)[0]
    fin = bool(np.isfinite(np.asarray(dy)).all() and np.isfinite(np.asarray(g)).all())
    return {"dy": arr(dy), "g": arr(g), "finite": fin}


OPS = dict(grad=grad)
