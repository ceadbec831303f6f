"""The public numerical functions of the package: where they are and arguments
for them.  Nothing of the package is imported here."""

import importlib

import numpy as np

PLANCK = (0.3075, -1.0, 0.0, 0.6774)


class Fn:
    def __init__(self, name, where, gen, batch=(), call=None, jit=True, mapped=None, f64=True,
                 resolve=True):
        self.name, self.gen, self.batch, self._call = name, gen, tuple(batch), call
        self.elem = ()                  # slots over whose entries the function works one by one
        self.resolve = resolve          # no value depends on its argument by steps
        self.mod, self.attr = where.split(":")
        self.jit, self.mapped, self.f64 = jit, mapped, f64
        self._f = None

    def load(self):
        """the function of the raw arguments"""
        if self._f is None:
            m = importlib.import_module(self.mod)
            f = getattr(m, self.attr)
            self._f = f if self._call is None else (lambda *a: self._call(f, m, *a))
        return self._f

    def near(self, ver, size, k):
        """arguments k tiny steps away"""
        a, rng = self.args(ver, size), np.random.default_rng(ver)
        h = lambda x: x * (1 + 1e-6 * k * rng.uniform(0.5, 1, np.shape(x)))    # noqa: E731
        return [h(x) if isinstance(x, (float, np.ndarray)) and np.asarray(x).dtype.kind == "f"
                else x for x in a]

    def args(self, ver, size):
        """raw arguments: float64 arrays and floats, fixed by version and size"""
        rng = np.random.default_rng([sum(map(ord, self.name)), abs(ver), size])
        a = [_r(a) for a in self.gen(rng, size)]
        return [_wild(rng, x) for x in a] if ver < 0 else a


def _r(a):
    if isinstance(a, (float, np.floating)):
        return float("%.9g" % a)
    if isinstance(a, np.ndarray) and a.dtype.kind == "f":
        return np.array([float("%.9g" % v) for v in a.ravel()]).reshape(a.shape)
    return a


def _wild(rng, a):
    """the argument with some entries nothing should come of, or nothing good"""
    if isinstance(a, float):
        return float(rng.choice([a, a, -a, 0.0, 1e30 * a, 1e-30 * a]))
    if isinstance(a, np.ndarray) and a.dtype.kind == "f" and a.size:
        a, f = a.copy(), a.copy().ravel()
        top = np.abs(f).max()
        for how in rng.choice(["below", "zero", "above", "odd", "swap", "none"], 2, replace=False):
            k = rng.integers(f.size, size=2)
            if how == "below":
                f[k] = -1e-3 * top
            elif how == "zero":
                f[k] = 0.0
            elif how == "above":
                f[k] = 1e3 * top
            elif how == "odd":
                f[k[0]] = rng.choice([np.nan, np.inf, -np.inf, 1e300, 5e-324])
            elif how == "swap":
                f[k] = f[k[::-1]]
        return f.reshape(a.shape)
    return a


def u(rng, lo, hi, *sh):
    return rng.uniform(lo, hi, sh) if sh else float(rng.uniform(lo, hi))


def grid(rng, lo, hi, n):
    e = rng.uniform(0.3, 1.0, n + 1)
    return lo + (hi - lo) * np.cumsum(e)[:n] / e.sum()


def cosmo(rng):
    return [u(rng, 0.2, 0.45), u(rng, -1.2, -0.8), u(rng, -0.3, 0.3), u(rng, 0.6, 0.8)]


def sfh(rng, s):
    n = (9, 14)[s]
    t = np.concatenate([[0.1], grid(rng, 0.3, 13.8, n - 1)])
    return [t, 10.0 ** rng.uniform(-2, 2, n)]


def ssps(rng, s, flux=True):
    nz, na, nw = ((4, 6, 7), (3, 9, 5))[s]
    r = [grid(rng, -4, -1, nz), grid(rng, -3, 1.2, na)]
    return r + [10.0 ** rng.uniform(-8, -4, (nz, na, nw))] if flux else r


def spec(rng, s):
    n = (12, 17)[s]
    return [grid(rng, 900, 20000, n), 10.0 ** rng.uniform(2, 4, n)]


def filt(rng, s):
    n = (8, 6)[s]
    return [grid(rng, 2000, 9000, n), rng.uniform(0.1, 1, n)]


def filts(rng, s):
    a = [filt(rng, s) for _ in range((3, 2)[s])]
    return [np.array([x[0] for x in a]), np.array([x[1] for x in a])]


def umzr(rng):
    return rng.normal(0, 5, 9)


def mzrp(rng):
    lo = u(rng, 0.2, 0.9)
    return np.array([u(rng, -0.9, 0.2), u(rng, 10.3, 10.7), u(rng, 0.6, 1.9), lo,
                     lo * u(rng, 0.1, 0.9), u(rng, -1.9, -1.1), u(rng, 0.02, 0.4),
                     u(rng, -1.4, -0.6), u(rng, 0.02, 0.4)])


def _mzr(kind):
    return lambda f, m, p: f(getattr(m, kind)(*p))


def _burst(kind):
    return lambda f, m, p, w, a: f(getattr(m, kind)(*p), w, a)


def weights(rng, n):
    w = rng.uniform(0.1, 1, n)
    return w / w.sum()


S, M = "dsps.sed.", "dsps.metallicity."
P, C = "dsps.photometry.", "dsps.cosmology.flat_wcdm:"
A = "dsps.dust.att_curves:"
FNS = [
    Fn("mstar", "dsps:cumulative_mstar_formed", sfh, (1,)),
    Fn("trapz", "dsps.utils:trapz", lambda r, s: [grid(r, 0, 9, 5 + s), u(r, -1, 1, 5 + s)], (0, 1)),
    Fn("cumtrapz", "dsps.utils:cumtrapz",
       lambda r, s: [grid(r, 0, 9, 5 + s), u(r, -1, 1, 5 + s)], (0, 1)),
    Fn("triweight", "dsps.utils:triweight_gaussian",
       lambda r, s: [u(r, -2, 2, 4 + s), u(r, -1, 1), u(r, 0.5, 2)], (0, 1, 2)),
    Fn("tw_hist", "dsps.utils:triweighted_histogram",
       lambda r, s: [u(r, 0, 6, 4 + s), u(r, 0.3, 2), grid(r, 0, 7, 5)], (0, 1)),
    Fn("plaw_pdf", "dsps.utils:powerlaw_pdf",
       lambda r, s: [u(r, 0.5, 5, 4 + s), u(r, 0.4, 0.9, 4 + s), u(r, 4, 6, 4 + s),
                     u(r, -3, -1.5, 4 + s)], (0, 1, 2, 3)),
    Fn("age_weights", "dsps:calc_age_weights_from_sfh_table",
       lambda r, s: sfh(r, s) + [ssps(r, s)[1], u(r, 5, 13.5)], (1, 3)),
    Fn("lgmet_mdf", "dsps:calc_lgmet_weights_from_lognormal_mdf",
       lambda r, s: [u(r, -4, -1), u(r, 0.1, 0.6), ssps(r, s)[0]], (0, 1)),
    Fn("lgmet_table", "dsps:calc_lgmet_weights_from_lgmet_table",
       lambda r, s: [sfh(r, s)[0], u(r, -4, -1, (9, 14)[s]), u(r, 0.1, 0.6)] + ssps(r, s, 0) +
       [u(r, 5, 13.5)], (1, 2, 5)),
    Fn("ssp_ln", "dsps:calc_ssp_weights_sfh_table_lognormal_mdf",
       lambda r, s: sfh(r, s) + [u(r, -4, -1), u(r, 0.1, 0.6)] + ssps(r, s, 0) + [u(r, 5, 13.5)],
       (1, 2, 3, 6)),
    Fn("ssp_mt", "dsps:calc_ssp_weights_sfh_table_met_table",
       lambda r, s: sfh(r, s) + [u(r, -4, -1, (9, 14)[s]), u(r, 0.1, 0.6)] + ssps(r, s, 0) +
       [u(r, 5, 13.5)], (1, 2, 3, 6)),
    Fn("sed_ln", "dsps:calc_rest_sed_sfh_table_lognormal_mdf",
       lambda r, s: sfh(r, s) + [u(r, -4, -1), u(r, 0.1, 0.6)] + ssps(r, s) + [u(r, 5, 13.5)],
       (1, 2, 3, 6, 7)),
    Fn("sed_mt", "dsps:calc_rest_sed_sfh_table_met_table",
       lambda r, s: sfh(r, s) + [u(r, -4, -1, (9, 14)[s]), u(r, 0.1, 0.6)] + ssps(r, s) +
       [u(r, 5, 13.5)], (1, 2, 3, 6, 7)),
    Fn("burst", "dsps.sfh.diffburst:calc_bursty_age_weights",
       lambda r, s: [np.array([u(r, -4, -1), u(r, 5, 7), u(r, 8.1, 9)]), weights(r, (6, 9)[s]),
                     grid(r, -4.5, 1.2, (6, 9)[s])], (0, 1), call=_burst("BurstParams")),
    Fn("burst_u", "dsps.sfh.diffburst:calc_bursty_age_weights_from_u_params",
       lambda r, s: [r.normal(0, 5, 3), weights(r, (6, 9)[s]), grid(r, -4.5, 1.2, (6, 9)[s])],
       (0, 1), call=_burst("BurstUParams")),
    Fn("mzr_t0", M + "umzr:mzr_model_t0", lambda r, s: [u(r, 8, 12, 3 + s), *mzrp(r)[:5]],
       (0, 1, 2, 3, 4, 5)),
    Fn("mzr_evol", M + "umzr:mzr_evolution_model",
       lambda r, s: [u(r, 8, 12, 3 + s), u(r, 1, 13, 3 + s), *mzrp(r)[5:]], (0, 1, 2, 3, 4, 5)),
    Fn("mzr", M + "umzr:mzr_model", lambda r, s: [u(r, 8, 12, 3 + s), u(r, 1, 13, 3 + s), *mzrp(r)],
       (0, 1, 2, 5, 8)),
    Fn("mzr_old", M + "mzr:mzr_model",
       lambda r, s: [u(r, 8, 12, 3 + s), u(r, 1, 13, 3 + s), *mzrp(r)[:7], 8.44, *mzrp(r)[7:]],
       (0, 1, 2, 5)),
    Fn("mzr_bound", M + "umzr:get_bounded_mzr_params", lambda r, s: [umzr(r)], (0,),
       call=_mzr("MZRUParams")),
    Fn("mzr_unbound", M + "umzr:get_unbounded_mzr_params", lambda r, s: [mzrp(r)], (0,),
       call=_mzr("MZRParams")),
    Fn("rest_mag", "dsps:calc_rest_mag", lambda r, s: spec(r, s) + filt(r, s), (1, 2, 3)),
    Fn("obs_mag", "dsps:calc_obs_mag",
       lambda r, s: spec(r, s) + filt(r, s) + [u(r, 0.01, 0.5), *cosmo(r)], (1, 3, 4, 5, 8)),
    Fn("rest_flux", P + "photometry_kernels:calc_rest_flux",
       lambda r, s: spec(r, s) + filt(r, s), (1, 3)),
    Fn("table_obs", P + "photpop:precompute_ssp_obsmags_on_z_table",
       lambda r, s: _tab(r, s) + [u(r, 0.01, 0.5, 2 + s), *cosmo(r)], (1, 3)),
    Fn("table_rest", P + "photpop:precompute_ssp_restmags", lambda r, s: _tab(r, s), (1, 3)),
    Fn("table_k", P + "photpop:precompute_ssp_restmags_z_kcorrect",
       lambda r, s: _tab(r, s) + [u(r, 0.01, 0.5)], (1, 4)),
    Fn("resample", P + "utils:interpolate_filter_trans_curves",
       lambda r, s: filts(r, s) + [5 + s], jit=False),
    Fn("eff_wave", "dsps.dust.utils:get_filter_effective_wavelength",
       lambda r, s: filt(r, s) + [u(r, 0, 2)], (1, 2)),
    Fn("noll_k", A + "noll09_k_lambda", lambda r, s: [u(r, 0.1, 2.5, 4 + s), u(r, 0, 3),
                                                     u(r, -1, 0.5)], (0, 1, 2)),
    Fn("noll_a", A + "noll09_k_att_curve",
       lambda r, s: [u(r, 0.1, 2.5, 4 + s), u(r, 0, 3), u(r, 0, 3), u(r, -1, 0.5)], (0, 1, 2, 3)),
    Fn("salim_k", A + "sbl18_k_lambda", lambda r, s: [u(r, 0.1, 2.5, 4 + s), u(r, 0, 3),
                                                     u(r, -1, 0.5)], (0, 1, 2)),
    Fn("salim_a", A + "sbl18_k_att_curve",
       lambda r, s: [u(r, 0.1, 2.5, 4 + s), u(r, 0, 3), u(r, 0, 3), u(r, -1, 0.5)], (0, 1, 2, 3)),
    Fn("calz_k", A + "calzetti00_k_lambda", lambda r, s: [u(r, 0.15, 2.2, 4 + s)], (0,)),
    Fn("calz_a", A + "calzetti00_att_curve", lambda r, s: [u(r, 0.15, 2.2, 4 + s), u(r, 0, 3)],
       (0, 1)),
    Fn("leit_k", A + "leitherer02_k_lambda", lambda r, s: [u(r, 0.1, 0.18, 4 + s)], (0,)),
    Fn("leit_a", A + "leitherer02_att_curve", lambda r, s: [u(r, 0.1, 0.18, 4 + s), u(r, 0, 3)],
       (0, 1)),
    Fn("tw_k", A + "triweight_k_lambda", lambda r, s: [u(r, 0.1, 2.5, 4 + s)], (0,)),
    Fn("tw_k_p", A + "triweight_k_lambda",
       lambda r, s: [u(r, 0.1, 9, 4 + s), u(r, -1.2, -0.8), u(r, 1, 1.3), u(r, 0.3, 0.7),
                     u(r, 0.3, 0.7), u(r, -0.9, -0.5), u(r, -2.2, -1.6)], (0, 1, 2, 4)),
    Fn("plaw_k", A + "power_law_vband_norm", lambda r, s: [u(r, 0.1, 2.5, 4 + s), u(r, -1, 0.5)],
       (0, 1)),
    Fn("bb_nu", "dsps.dust:blackbody_freq_density",
       lambda r, s: [10.0 ** u(r, 8, 15.5, 3 + s), u(r, 10, 30000)], (0, 1)),
    Fn("bb_lam", "dsps.dust:blackbody_wave_density",
       lambda r, s: [10.0 ** u(r, 3, 10, 3 + s), u(r, 10, 30000)], (0, 1)),
    Fn("surviving", "dsps.imf.surviving_mstar:surviving_mstar", lambda r, s: [u(r, 5, 10.2, 3 + s)],
       (0,)),
    Fn("surviving_p", "dsps.imf.surviving_mstar:surviving_mstar",
       lambda r, s: [u(r, 6, 10.2, 3 + s), u(r, 0.1, 0.3), u(r, 7, 9), u(r, -1, 1), u(r, 0.05, 0.2),
                     u(r, 0.05, 0.1), u(r, 6, 7), u(r, -1, 1), u(r, 0, 0.01)], (0, 1, 2, 3, 6, 7)),
    Fn("remnant_p", "dsps.imf.remnant_mass:remnant_mass",
       lambda r, s: [u(r, 5, 10.2, 3 + s), u(r, -2, -1), u(r, 6, 8), u(r, -1, 1), u(r, 1, 2),
                     u(r, 0.1, 0.3)], (0, 1, 2, 3, 4, 5)),
    Fn("remnant", "dsps.imf.remnant_mass:remnant_mass", lambda r, s: [u(r, 5, 10.2, 3 + s)], (0,)),
    Fn("ran_curve", "dsps.data_loaders:load_random_transmission_curve",
       lambda r, s: [np.array([0, int(r.integers(1 << 20))], dtype="uint32")], jit=False, f64=False,
       call=lambda f, m, k: f(_key(k))),
    Fn("plaw_rvs", "dsps.utils:powerlaw_rvs",
       lambda r, s: [np.array([0, int(r.integers(1 << 20))], dtype="uint32"), u(r, 0.4, 0.9, 4 + s),
                     u(r, 4, 6, 4 + s), u(r, -3, -1.5, 4 + s)], (1, 2, 3),
       call=lambda f, m, k, a, b, g: f(_key(k), a, b, g)),
    Fn("ran_mzr", M + "umzr:get_ran_t0_params",
       lambda r, s: [np.array([0, int(r.integers(1 << 20))], dtype="uint32")],
       call=lambda f, m, k: f(_key(k))),
    Fn("fake_lib", "dsps.data_loaders.retrieve_fake_fsps_data:load_fake_ssp_data",
       lambda r, s: [0], jit=False,
       call=lambda f, m, n: (lambda d: (d.ssp_lgmet, d.ssp_lg_age_gyr, d.ssp_wave[::150],
                                        d.ssp_flux[::9, ::40, ::500]))(f(n_line=n))),
    Fn("fake_filters",
       "dsps.data_loaders.retrieve_fake_fsps_data:load_fake_filter_transmission_curves",
       lambda r, s: [], jit=False, call=lambda f, m: tuple(x[::150] for x in f())),
    Fn("subset", "dsps.data_loaders.load_emline_info:get_subset_emline_data",
       lambda r, s: [np.round(u(r, 900, 9000, 3 + s), 3), 10.0 ** u(r, -5, 5, 2, 3, 3 + s),
                     np.arange(3 + s) if r.random() < 0.6 else r.permutation(3 + s)],
       jit=False, call=lambda f, m, w, x, k: _lines(f, w, x, k)),
    Fn("line_list", "dsps.data_loaders.retrieve_fsps_data:get_fsps_emline_info",
       lambda r, s: [], jit=False, call=lambda f, m: f()[0]),
    Fn("age_z0", C + "age_at_z0", lambda r, s: cosmo(r), (0, 1, 2, 3)),
    Fn("hub_dist", C + "hubble_distance_mpc", lambda r, s: [u(r, 0.6, 0.8)], (0,)),
]


def _tab(r, s):
    w = spec(r, s)[0]
    return [w, 10.0 ** r.uniform(-8, -4, ((2, 3, w.size), (3, 2, w.size))[s])] + filts(r, s)


def _lines(f, w, x, k):
    """the lines asked for, of a table whose other arrays are passed on as they are"""
    from collections import namedtuple

    from dsps.data_loaders.defaults import SSPData

    names = ["Ha", "Hb", "OIII", "NII", "Hg"][: len(w)]
    o = np.ones(2)
    d = f(SSPData(o, o, o, o, namedtuple("L", names)(*[float(v) for v in w]), x), [names[j] for j in k])
    return [np.array(list(d.ssp_emline_wave)), d.ssp_emline_luminosity]


def _key(k):
    import jax

    return jax.random.wrap_key_data(jax.numpy.asarray(k), impl="threefry2x32")


for _n in ("comoving_distance_to_z", "luminosity_distance_to_z", "angular_diameter_distance_to_z",
           "distance_modulus_to_z", "lookback_to_z", "differential_comoving_volume_at_z"):
    FNS.append(Fn(_n, C + _n, lambda r, s: [u(r, 0.01, 5)] + cosmo(r), (0, 1, 2, 3, 4)))
for _n in ("age_at_z", "rho_crit", "virial_dynamical_time"):
    FNS.append(Fn(_n, C + _n, lambda r, s: [u(r, 0.01, 5, 2 + s)] + cosmo(r),
                  (0, 1, 2, 3, 4) if _n != "age_at_z" else (0, 1, 4)))
for _n, _b in (("comoving_distance", "comoving_distance_to_z"),
               ("luminosity_distance", "luminosity_distance_to_z"),
               ("angular_diameter_distance", "angular_diameter_distance_to_z"),
               ("distance_modulus", "distance_modulus_to_z"), ("lookback_time", "lookback_to_z"),
               ("differential_comoving_volume", "differential_comoving_volume_at_z")):
    FNS.append(Fn(_n, C + _n, lambda r, s: [u(r, 0.01, 5, 2 + s)] + cosmo(r), (0,), mapped=_b))
BY = {f.name: f for f in FNS}
ELEMENTWISE = {
    "plaw_pdf": (0, 1, 2, 3),
    "noll_k": (0,),
    "noll_a": (0,),
    "salim_k": (0,),
    "salim_a": (0,),
    "calz_k": (0,),
    "calz_a": (0,),
    "leit_k": (0,),
    "leit_a": (0,),
    "tw_k": (0,),
    "tw_k_p": (0,),
    "plaw_k": (0,),
    "bb_nu": (0,),
    "bb_lam": (0,),
    "surviving": (0,),
    "surviving_p": (0,),
    "remnant": (0,),
    "remnant_p": (0,),
    "triweight": (0,),
    "mzr_t0": (0,),
    "mzr_evol": (0, 1),
    "mzr": (0, 1),
    "mzr_old": (0, 1),
    "age_at_z": (0,), "rho_crit": (0,), "virial_dynamical_time": (0,),
}
for _n, _e in ELEMENTWISE.items():
    BY[_n].elem = _e


def whole(a):
    """the argument with whole numbers for entries"""
    if isinstance(a, np.ndarray) and a.dtype.kind == "f":
        w = np.round(a) if np.abs(a).max() > 1.5 else np.round(10 * a)
        if a.ndim == 1 and a.size > 1 and (np.diff(a) > 0).all() and not (np.diff(w) > 0).all():
            w = np.round(a[0]) + np.cumsum(1 + np.arange(a.size) % 2) - 1.0
        return w
    if isinstance(a, float):
        w = float(np.round(a))
        return w if w else float(np.sign(a))
    return a


def integer(a, numpy):
    """the same whole numbers as integers"""
    if isinstance(a, np.ndarray) and a.dtype.kind == "f":
        return a.astype(np.int64)
    if isinstance(a, float):
        return np.int64(a) if numpy else int(a)
    return a


def leaves(x):
    """the arrays of a result, in order"""
    import jax

    r = jax.tree_util.tree_leaves(x)
    return [np.asarray(v) for v in r]
