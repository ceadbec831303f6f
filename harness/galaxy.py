"""Calls of the galaxy machine on the real code, and inputs for it."""

import numpy as np

from .core import Lenient, arr, dec, import_dsps, num, nums

_D = {}


def D():
    if not _D:
        dsps = import_dsps()
        import jax.numpy as jnp

        from dsps.sfh import diffburst

        _D.update(dsps=dsps, jnp=jnp, db=Lenient(diffburst))
    return _D


def _smin(i):
    return {} if i.get("sfrmin", "") == "" else {"sfr_min": float(i["sfrmin"])}


def form(c, i):
    t, s = dec(i["t"]), dec(i["sfr"])
    c.state.update(t=t, s=s)
    return {"mass": arr(D()["dsps"].cumulative_mstar_formed(t, s))}


def adopt(c, i):
    c.state.update(t=dec(i["t"]), s=dec(i["sfr"]))
    return {}


rewrite = adopt


def age_weights(c, i):
    f = D()["dsps"].calc_age_weights_from_sfh_table
    w = f(c.state["t"], c.state["s"], dec(i["lgage"]), dec(i["tobs"]), **_smin(i))
    return {"w": arr(w)}


def mdf(c, i):
    f = D()["dsps"].calc_lgmet_weights_from_lognormal_mdf
    return {"w": arr(f(dec(i["lgmet"]), dec(i["scatter"]), dec(i["lgmets"])))}


def met_matrix(c, i):
    f = D()["dsps"].calc_lgmet_weights_from_lgmet_table
    return {"w": arr(f(c.state["t"], dec(i["lgz"]), dec(i["scatter"]), dec(i["lgmets"]),
                       dec(i["lgage"]), dec(i["tobs"])))}


def _joint(r):
    return {"w": arr(r.weights), "wz": arr(r.lgmet_weights), "wa": arr(r.age_weights)}


def ssp_ln(c, i):
    f = D()["dsps"].calc_ssp_weights_sfh_table_lognormal_mdf
    return _joint(f(c.state["t"], c.state["s"], dec(i["lgmet"]), dec(i["scatter"]),
                    dec(i["lgmets"]), dec(i["lgage"]), dec(i["tobs"]), **_smin(i)))


def ssp_mt(c, i):
    f = D()["dsps"].calc_ssp_weights_sfh_table_met_table
    return _joint(f(c.state["t"], c.state["s"], dec(i["lgz"]), dec(i["scatter"]),
                    dec(i["lgmets"]), dec(i["lgage"]), dec(i["tobs"]), **_smin(i)))


def sed_ln(c, i):
    f = D()["dsps"].calc_rest_sed_sfh_table_lognormal_mdf
    r = f(c.state["t"], c.state["s"], dec(i["lgmet"]), dec(i["scatter"]), dec(i["lgmets"]),
          dec(i["lgage"]), dec(i["flux"]), dec(i["tobs"]), **_smin(i))
    return dict(_joint(r), sed=arr(r.rest_sed))


def sed_mt(c, i):
    f = D()["dsps"].calc_rest_sed_sfh_table_met_table
    r = f(c.state["t"], c.state["s"], dec(i["lgz"]), dec(i["scatter"]), dec(i["lgmets"]),
          dec(i["lgage"]), dec(i["flux"]), dec(i["tobs"]), **_smin(i))
    return dict(_joint(r), sed=arr(r.rest_sed))


def burst(c, i):
    db = D()["db"]
    p = (dec(i["lgfb"]), dec(i["peak"]), dec(i["max"]))
    sw, a = dec(i["smooth"]), dec(i["lgage"])
    how = i.get("how", "tuple")
    if how == "named":
        w = db.calc_bursty_age_weights(db.BurstParams(*p), sw, a)
    elif how == "u":
        u = db._get_u_params_from_params(db.BurstParams(*p))
        w = db.calc_bursty_age_weights_from_u_params(u, sw, a)
    elif how == "compute":
        w = db._compute_bursty_age_weights_from_params(a + 9.0, sw, db.BurstParams(*p))
    elif how == "compute_u":
        u = db._get_u_params_from_params(db.BurstParams(*p))
        w = db._compute_bursty_age_weights_from_u_params(a + 9.0, sw, u)
    else:
        w = db.calc_bursty_age_weights(p, sw, a)
    return {"w": arr(w)}


OPS = dict(form=form, adopt=adopt, rewrite=rewrite, age_weights=age_weights, mdf=mdf,
           met_matrix=met_matrix, ssp_ln=ssp_ln, ssp_mt=ssp_mt, sed_ln=sed_ln, sed_mt=sed_mt,
           burst=burst)


# ------------------------------------------------------------------ inputs
def r6(x):
    """keep generated inputs short: six significant digits"""
    return np.array([float("%.6g" % v) for v in np.atleast_1d(x)])


def time_grid(rng, n):
    k = rng.integers(9)
    if k == 6:                                      # from the first births on, far into the future
        t = np.logspace(-3, rng.uniform(1, 2.5), n)
    elif k == 7:                                    # finely resolved episode
        t = rng.uniform(0.01, 12) + np.cumsum(rng.uniform(0.2, 1.0, n)) * 10.0 ** rng.uniform(-4, -2)
    elif k == 8:                                    # wide and narrow steps side by side
        t = 0.002 + np.cumsum(10.0 ** rng.uniform(-3, 1, n))
        t = t * min(1.0, 20.0 / t[-1]) + 0.001
    elif k == 0:
        t = np.linspace(0.1, 13.8, n)
    elif k == 1:
        t = np.logspace(-2, np.log10(13.8), n)
    elif k == 2:
        t = np.sort(rng.uniform(0.01, 14.0, n))
    elif k == 3:
        t = np.linspace(0.01, rng.uniform(1, 14), n)
    elif k == 4:
        t = rng.uniform(0.01, 3) + np.cumsum(rng.exponential(13.0 / n, n)) * 0.8
    else:
        t = np.linspace(rng.uniform(0.5, 3), 13.7, n)
    t = r6(t)
    for i in range(1, n):
        if t[i] <= t[i - 1] * (1 + 1e-4):
            t[i] = float("%.6g" % (t[i - 1] * 1.01 + 1e-3))
    return t


def sfr_table(rng, t):
    n = len(t)
    k = rng.integers(11)
    if k == 10:                                     # every size there is
        s = 10.0 ** rng.uniform(-20, 8, n) * (rng.uniform(size=n) > 0.1)
    elif k == 0:
        s = np.full(n, 10.0 ** rng.uniform(-3, 3))
    elif k == 1:
        s = np.zeros(n)
    elif k == 2:
        s = t / t[-1] * 10.0 ** rng.uniform(-2, 2)
    elif k == 3:
        s = np.exp(-t / rng.uniform(0.3, 5)) * t * 10.0 ** rng.uniform(-1, 2)
    elif k == 4:                                    # quenched
        s = np.where(t < rng.choice(t), 10.0 ** rng.uniform(-1, 2), 0.0)
    elif k == 5:                                    # late start
        s = np.where(t > rng.choice(t), 10.0 ** rng.uniform(-1, 2), 0.0)
    elif k == 6:                                    # one spike
        s = np.zeros(n)
        s[rng.integers(n)] = 10.0 ** rng.uniform(-1, 3)
    elif k == 7:
        s = 10.0 ** rng.normal(0, 1.5, n)
    elif k == 8:                                    # around the floor
        s = 10.0 ** rng.uniform(-18, -10, n)
    else:                                           # stop and go
        s = 10.0 ** rng.normal(0, 1, n) * (rng.uniform(size=n) > 0.5)
    return r6(s)


def age_grid(rng, n):
    k = rng.integers(7)
    if k == 4:                                      # only young, or only old, stars
        a = np.linspace(*(((-4.0, -1.5), (0.0, 1.2), (-6.0, 2.0))[rng.integers(3)]), n)
    elif k == 5:                                    # wide and narrow bins side by side
        d = 10.0 ** rng.uniform(-2, 0, n)
        a = rng.uniform(-5, -2) + np.cumsum(d) / d.sum() * rng.uniform(2, 5.5)
    elif k == 0:
        a = np.linspace(-3.5, 1.3, n)
    elif k == 1:
        a = np.linspace(rng.uniform(-5, -1), rng.uniform(0.2, 1.4), n)
    elif k == 2:
        d = rng.uniform(0.5, 1.5, n)
        a = -4 + np.cumsum(d) / d.sum() * rng.uniform(4.5, 5.3)
    else:
        a = np.linspace(-4, 1.14, n)
    return np.round(a, 5)


def t_obs(rng, t, k=None):
    k = rng.integers(9) if k is None else k
    return float("%.6g" % [
        rng.uniform(0.05, 13.8), rng.choice(t), t[-1], t[-1] * 1.2,
        rng.choice(t) * (1 + 1e-6), t[0] + 0.3 * (t[1] - t[0]), 13.8,
        10.0 ** rng.uniform(-2.9, -1), 10.0 ** rng.uniform(1, 2)][k])


def met_grid(rng, n):
    k = rng.integers(5)
    if k == 3:
        d = 10.0 ** rng.uniform(-2, 0, n)
        m = rng.uniform(-6, -3) + np.cumsum(d) / d.sum() * rng.uniform(1, 5)
    elif k == 4:                                    # metal rich
        m = np.linspace(rng.uniform(-3, -1), rng.uniform(-0.9, 1), n)
    elif k == 0:
        m = np.linspace(-4, -1.3, n)
    elif k == 1:
        d = rng.uniform(0.5, 1.5, n)
        m = rng.uniform(-5, -3) + np.cumsum(d) / d.sum() * rng.uniform(1, 4)
    else:
        m = np.linspace(-3.7, -1.2, n)
    return np.round(m, 5)


def galaxy(rng, n_t):
    t = time_grid(rng, n_t)
    return t, sfr_table(rng, t)


def fluxes(rng, n_met, n_age, n_wave, wild=False):
    f = rng.uniform(0, 1, (n_met, n_age, n_wave)) * 10.0 ** rng.uniform(-6, 2)
    if rng.uniform() < 0.3:
        f[rng.integers(n_met)] = 0.0
    if wild and rng.uniform() < 0.4:       # ionising wavelengths, differences of templates
        f *= 10.0 ** -rng.uniform(0, 60, n_wave)
    if wild and rng.uniform() < 0.2:
        f *= np.sign(rng.uniform(-1, 3, f.shape))
    return np.array([[r6(x) for x in y] for y in f])


def future_rewrite(rng, t, s, tobs):
    """same history up to the first knot at or past tobs, anything after"""
    k = int(np.searchsorted(t, tobs, side="left")) + 1
    s2 = s.copy()
    if k >= len(t):
        return t, s2
    s2[k:] = r6(10.0 ** rng.uniform(-3, 3, len(t) - k))
    if rng.uniform() < 0.3:
        s2[k:] = 0.0
    t2 = t.copy()
    if rng.uniform() < 0.3:
        t2[k:] = r6(t[k - 1] + (t[k:] - t[k - 1]) * 1.25)
    return t2, s2
