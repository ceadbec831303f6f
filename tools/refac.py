"""refac.py COPY: rewrites every module of a copy of the repository without changing what it does\n(the checks have to stay quiet on it)"""
import sys,os,re
R=sys.argv[1]
def ed(f,*prs):
    p=os.path.join(R,'dsps',f); s=open(p).read()
    for a,b in prs:
        n=s.count(a)
        assert n>=1,(f,a)
        s=s.replace(a,b)
    open(p,'w').write(s)
def ren(f,*names):
    p=os.path.join(R,'dsps',f); s=open(p).read()
    for n in names:
        s,k=re.subn(r'\b'+n+r'\b',n+'_v2',s); assert k,(f,n)
    open(p,'w').write(s)
# utils: cumsum, bin edges by concatenate, Horner, tanh-free sigmoid, log forms
ed('utils.py',
 ("""    res_init = xarr[0], yarr[0], 0.0
    scan_data = xarr, yarr
    cumtrapz = scan(_cumtrapz_scan_func, res_init, scan_data)[1]
    return cumtrapz""",
  """    xarr, yarr = jnp.asarray(xarr), jnp.asarray(yarr)
    panels = 0.5 * jnp.diff(xarr) * (yarr[1:] + yarr[:-1])
    return jnp.concatenate([jnp.zeros(1), jnp.cumsum(panels)])"""),
 ("""    tmids = 0.5 * (t[:-1] + t[1:])
    dt = jnp.zeros(t.shape, dtype=tmids.dtype)
    dtmids = jnp.diff(tmids)

    dt = dt.at[1:-1].set(dtmids)

    t_lo = t[0] - (t[1] - t[0]) / 2
    t_hi = t[-1] + dtmids[-1] / 2

    dt = dt.at[0].set(tmids[0] - t_lo)
    dt = dt.at[-1].set(t_hi - tmids[-1])
    return dt""",
  """    steps = jnp.diff(t)
    inner = 0.5 * (steps[:-1] + steps[1:])
    first = steps[0]
    last = 0.5 * steps[-1] + 0.5 * inner[-1]
    return jnp.concatenate([first[None], inner, last[None]])"""),
 ("""    z = (x - m) / h
    val = -5 * z**7 / 69984 + 7 * z**5 / 2592 - 35 * z**3 / 864 + 35 * z / 96 + 1 / 2
    val = jnp.where(z < -3, 0, val)
    val = jnp.where(z > 3, 1, val)
    return val""",
  """    z = (x - m) / h
    q = z * z
    body = 0.5 + z * (35 / 96 + q * (-35 / 864 + q * (7 / 2592 + q * (-5 / 69984))))
    return jnp.select([z < -3, z > 3], [0.0, 1.0], body)"""),
 ("""    height_diff = yhi - ylo
    return ylo + height_diff * nn.sigmoid(1.0 * k * (x - x0))""",
  """    return ylo + (yhi - ylo) * (0.5 * (jnp.tanh(0.5 * k * (x - x0)) + 1.0))"""),
 ("""    lnarg = (yhi - ylo) / (y - ylo) - 1
    return x0 - lax.log(lnarg) / k""",
  """    return x0 - jnp.log((1.0 * yhi - y) / (1.0 * y - ylo)) / k"""),
 ("""    val = 35 / 96 * (1 - (z / 3) ** 2) ** 3 / h
    msk = (z < -3) | (z > 3)
    return jnp.where(msk, 0, val)""",
  """    core = 1.0 - z * z / 9.0
    return jnp.where(jnp.abs(z) <= 3, (35 / 96) * core * core * core, 0.0) / h"""),
 ("""    return jnp.trapezoid(yarr, xarr)""",
  """    dx = jnp.diff(xarr)
    return 0.5 * jnp.sum(dx * yarr[1:] + dx * yarr[:-1])"""),
 ("""    n_t = t_table.size

    padded_t_table = jnp.zeros(n_t + 1)
    padded_t_table = padded_t_table.at[0].set(T_BIRTH_MIN)
    padded_t_table = padded_t_table.at[1:].set(t_table)

    padded_sfh_table = jnp.zeros(n_t + 1)
    padded_sfh_table = padded_sfh_table.at[0].set(SFR_MIN)
    padded_sfh_table = padded_sfh_table.at[1:].set(sfh_table)
""",
  """    padded_t_table = jnp.insert(jnp.asarray(t_table, dtype=float), 0, T_BIRTH_MIN)
    padded_sfh_table = jnp.insert(jnp.asarray(sfh_table, dtype=float), 0, SFR_MIN)
"""),
 ("""    ag, bg = a**g, b**g
    return g * x ** (g - 1) / (bg - ag)""",
  """    lo, hi = a**g, b**g
    norm = (hi - lo) / g
    return x**g / x / norm"""),
 ("""@jjit
def _cumtrapz_scan_func(carryover, el):
    b, fb = el
    a, fa, cumtrapz = carryover
    cumtrapz = cumtrapz + (b - a) * (fb + fa) / 2.0
    carryover = b, fb, cumtrapz
    accumulated = cumtrapz
    return carryover, accumulated


""",""),
)
ren('utils.py','_triweighted_histogram_kernel','_triweighted_histogram_vmap')
ed('sed/stellar_age_weights.py',
 ("""    delta_mstar_at_t_birth = -jnp.diff(10**logsm_at_t_birth_bin_edges)
    age_weights = delta_mstar_at_t_birth / delta_mstar_at_t_birth.sum()
""","""    formed = jnp.power(10.0, logsm_at_t_birth_bin_edges)
    in_bin = formed[:-1] - formed[1:]
    age_weights = in_bin / jnp.sum(in_bin)
"""),
 ("""    t_birth = jnp.where(t_birth < T_BIRTH_MIN, T_BIRTH_MIN, t_birth)
""","""    t_birth = jnp.clip(t_birth, T_BIRTH_MIN, None)
"""),
 ("    gal_sfr_table = jnp.where(gal_sfr_table < sfr_min, sfr_min, gal_sfr_table)","    gal_sfr_table = jnp.maximum(gal_sfr_table, sfr_min)"),
)
ed('sed/metallicity_weights.py',('_get_lgmet_weights_singlegal_zh','_column_weights'),('_calc_lgmet_at_ssp_lgage_table','_zh_at_birth'))
ed('sed/ssp_weights.py',("    weights = lgmet_weights.reshape((-1, 1)) * age_weights.reshape((1, -1))","    weights = jnp.outer(lgmet_weights, age_weights)"),
 ("    weights = lgmet_weights * age_weights.reshape((1, -1))","    weights = lgmet_weights * age_weights[None, :]"))
ed('sed/stellar_sed.py',("""    n_met, n_ages = weights.shape
    sed_unit_mstar = jnp.sum(
        ssp_flux * weights.reshape((n_met, n_ages, 1)), axis=(0, 1)
    )
""","""    sed_unit_mstar = jnp.einsum("ma,maw->w", weights, ssp_flux)
"""),("""    lgt_obs = jnp.log10(t_obs)
    lgt_table = jnp.log10(gal_t_table)
    logsm_table = _calc_logsm_table_from_sfh_table(gal_t_table, gal_sfr_table, sfr_min)
    logsm_obs = jnp.interp(lgt_obs, lgt_table, logsm_table)
    mstar_obs = 10**logsm_obs
""","""    mstar_obs = _formed_by(t_obs, gal_t_table, gal_sfr_table, sfr_min)
"""),("""@jjit
def calc_rest_sed_sfh_table_lognormal_mdf(""","""def _formed_by(t_obs, gal_t_table, gal_sfr_table, sfr_min):
    logsm = _calc_logsm_table_from_sfh_table(gal_t_table, gal_sfr_table, sfr_min)
    return 10.0 ** jnp.interp(jnp.log10(t_obs), jnp.log10(gal_t_table), logsm)


@jjit
def calc_rest_sed_sfh_table_lognormal_mdf("""))
ed('sfh/diffburst.py',("""    dlgyr_support = lgyr_max - lgyr_peak
    lgyr_min = lgyr_peak - dlgyr_support
    twx0 = 0.5 * (lgyr_min + lgyr_max)

    dlgyr = lgyr_max - lgyr_min
    twh = dlgyr / 6

    tw_gauss = triweight_gaussian(lgyr, twx0, twh)
""","""    tw_gauss = triweight_gaussian(lgyr, lgyr_peak, (lgyr_max - lgyr_peak) / 3.0)
"""),("    age_weights = fb * burst_weights + (1 - fb) * smooth_age_weights","    age_weights = smooth_age_weights + fb * (burst_weights - smooth_age_weights)"))
ren('sfh/diffburst.py','_get_lgyr_peak_from_u_lgyr_peak','_get_u_lgyr_max_from_lgyr_peak','_zero_safe_normalize','_get_tburst_u_params_from_tburst_params')
ed('dust/blackbody.py',("""    denom_factor = _wave_density_denom(wave_m, temp_kelvin)
    lg_term1 = LG2 + LGH + 2 * LGC
    lg_term2 = 5 * lax.log(wave_m)
    exparg = lg_term1 - lg_term2
    wave_factor = lax.exp(exparg)
    return wave_factor * denom_factor
""","""    x = H_PLANCK * C_SPEED / (wave_m * K_BOLTZ * temp_kelvin)
    two_hc2 = 2 * H_PLANCK * C_SPEED**2
    return lax.exp(np.log(two_hc2) - 5 * lax.log(wave_m) - x) / -lax.expm1(-x)
"""))
ren('dust/blackbody.py','_freq_density_denom')
ed('dust/att_curves.py',
 ("    k1 = 2.659 * (-2.156 + 1.509 * y - 0.198 * y**2 + 0.011 * y**3) + RV_C00","    k1 = RV_C00 + 2.659 * (-2.156 + y * (1.509 + y * (-0.198 + 0.011 * y)))"),
 ("    k_lambda = 5.472 + (0.671 * y - 9.218 * 1e-3 * y**2 + 2.620 * 1e-3 * y**3)","    k_lambda = 5.472 + y * (0.671 + y * (-9.218e-3 + y * 2.620e-3))"),
 ("    bump = x**2 * gamma**2 / ((x**2 - x0**2) ** 2 + x**2 * gamma**2)","    xg2 = (x * gamma) ** 2\n    bump = xg2 / (((x - x0) * (x + x0)) ** 2 + xg2)"),
 ("    k_lambda = jnp.where(k_lambda < 0, 0, k_lambda)","    k_lambda = jnp.maximum(k_lambda, 0.0)"),
 ("    att_curve = jnp.where(att_curve < 0, 0, att_curve)","    att_curve = jnp.maximum(att_curve, 0.0)"),
 ("    ftrans = 10 ** (-0.4 * A_lambda)","    ftrans = jnp.exp(-0.4 * jnp.log(10.0) * A_lambda)"),
 ("    ftrans = ftrans_floor + (1 - ftrans_floor) * ftrans","    ftrans = ftrans + ftrans_floor * (1 - ftrans)"),
)
ed('dust/utils.py',("""    norm = trapz(filter_wave, filter_trans)
    lambda_eff_rest = trapz(filter_wave, filter_trans * filter_wave) / norm
    lambda_eff = lambda_eff_rest / (1 + redshift)
    return lambda_eff""","""    first = trapz(filter_wave, filter_trans * filter_wave)
    return first / (trapz(filter_wave, filter_trans) * (1 + redshift))"""))
ed('em_lines/equivalent_width.py',("""    quadfit_w = _get_quadfit_weights(
        wave, cont_lo_lo, cont_lo_hi, cont_hi_lo, cont_hi_hi
    )
    c = _weighted_quadratic_fit(wave, flux, quadfit_w)
    c2, c1, c0 = c

    continuum_strength_at_line = c0 + c1 * line_mid + c2 * line_mid**2

    int_w = _get_integration_weights(wave, line_lo, line_hi)
    continuum_integrand = int_w * (c0 + c1 * wave + c2 * wave * wave)
    spec_integrand = int_w * flux

    continuum_flux_integral = trapz(wave, continuum_integrand)
    spec_flux_integral = trapz(wave, spec_integrand)
    total_line_flux = spec_flux_integral - continuum_flux_integral
    equivalent_width = total_line_flux / continuum_strength_at_line

    return equivalent_width, total_line_flux
""","""    res = _continuum_line_decomp_kern(
        wave, flux, line_lo, line_mid, line_hi,
        cont_lo_lo, cont_lo_hi, cont_hi_lo, cont_hi_hi,
    )
    return res[0], res[1]
"""),("continuum_strength_at_line = c0 + c1 * line_mid + c2 * line_mid**2","continuum_strength_at_line = c0 + line_mid * (c1 + line_mid * c2)"))
ed('cosmology/flat_wcdm.py',
 ("    de_z = a ** (-3.0 * (1.0 + w0 + wa)) * lax.exp(-3.0 * wa * (1.0 - a))","    de_z = lax.exp(3.0 * ((1.0 + w0 + wa) * jnp.log(1.0 + z) - wa * (1.0 - a)))"),
 ("    integrand = 1 / _Ez(z_table, Om0, w0, wa) / (1 + z_table)\n    res = trapz(z_table, integrand)","    res = trapz(z_table, _integrand_oneOverEz1pz(z_table, Om0, w0, wa))"),
 ("    diff_vol_com = dh * ((zp1 * da) ** 2.0) / ez","    dm = zp1 * da\n    diff_vol_com = dm * dm * dh / ez"),
 ("    mu = 5.0 * jnp.log10(d_lum * 1e5)","    mu = 5.0 * jnp.log10(d_lum) + 25.0"),
 ("    Delta = 18 * jnp.pi**2 + 82.0 * x - 39.0 * x**2","    Delta = 18 * jnp.pi**2 + x * (82.0 - 39.0 * x)"),
)
ren('cosmology/flat_wcdm.py','_age_at_z_kern','_age_at_z_vmap','_hubble_time','_rho_de_z')
ed('photometry/photometry_kernels.py',
 ("    integrand = trans_filter * AB0 / wave_filter\n    lum_ab0_filter = trapz(wave_filter, integrand)","    lum_ab0_filter = AB0 * trapz(wave_filter, trans_filter / wave_filter)"),
 ("    mag_no_dimming = -2.5 * jnp.log10(flux_source / flux_ab0)","    mag_no_dimming = 2.5 * (jnp.log10(flux_ab0) - jnp.log10(flux_source))"),
 ("        wave_filter, wave_spec_rest * (1 + z), lum_spec, left=0, right=0","        wave_filter, (1 + z) * wave_spec_rest, lum_spec, left=0.0, right=0.0"),
 ("_flux_ab0_at_10pc","_ab_reference"),("_cosmological_dimming(","_dimming("))
ed('photometry/utils.py',("""    wave0 = wave_filters[0]
    wave_min, wave_max = wave0.min(), wave0.max()

    if n is None:
        n = np.min([x.size for x in wave_filters])

    for wave, trans in zip(wave_filters, trans_filters):
        wave_min = min(wave_min, wave.min())
        wave_max = max(wave_max, wave.max())

    wave_collector = []
    trans_collector = []
    for wave, trans in zip(wave_filters, trans_filters):
        wave_min, wave_max = wave.min(), wave.max()
        new_wave = np.linspace(wave_min, wave_max, n)
        new_trans = np.interp(new_wave, wave, trans)
        wave_collector.append(new_wave)
        trans_collector.append(new_trans)
    return np.array(wave_collector), np.array(trans_collector)""","""    if n is None:
        n = min(x.size for x in wave_filters)
    new = [np.linspace(w.min(), w.max(), n) for w in wave_filters]
    out = [np.interp(x, w, t) for x, w, t in zip(new, wave_filters, trans_filters)]
    return np.array(new), np.array(out)"""))
ed('imf/remnant_mass.py',('    k1 = 10.0**lgk1\n    xtp = b\n    return 10 ** _sig_slope(lg_age_yr, xtp, a, b, k1, d, e)','    return 10.0 ** _sig_slope(lg_age_yr, b, a, b, 10.0**lgk1, d, e)'))
ed('imf/surviving_mstar.py',('    h = _sigmoid(lg_age_yr, f, k2, h, z)\n    return h','    return _sigmoid(lg_age_yr, f, k2, h, z)'))
ed('metallicity/umzr.py',("""    for ip in range(nparams):
        ran_key, p_key = jran.split(ran_key, 2)
        u = jran.uniform(p_key, minval=bounds[ip][0], maxval=bounds[ip][1], shape=())
        params.append(u)
    return params""","""    for ip, (lo, hi) in enumerate(bounds):
        ran_key, p_key = jran.split(ran_key, 2)
        params.append(jran.uniform(p_key, minval=lo, maxval=hi, shape=()))
    return params"""),
 ("    return jnp.where(logZ_reduction > 0, 0, logZ_reduction)","    return jnp.minimum(logZ_reduction, 0.0)"),
 ("    t_lookback = jnp.where(t_lookback < 0, 0, t_lookback)","    t_lookback = jnp.maximum(t_lookback, 0.0)"))
ren('metallicity/umzr.py','_delta_logz_at_t_lookback','_get_p_at_lgmstar','_get_params_kern')
ed('data_loaders/load_ssp_data.py',("""    ssp_data_dict = OrderedDict()
    with h5py.File(fn, "r") as hdf:
        for key in DEFAULT_SSP_KEYS:
            ssp_data_dict[key] = hdf[key][...]
""","""    hdf = h5py.File(fn, "r")
    with hdf:
        ssp_data_dict = OrderedDict((k, hdf[k][()]) for k in DEFAULT_SSP_KEYS)
"""),("""            return SSPData(**ssp_data_dict)
        else:
            # If no lines are in the SSP data, these fields will exist and store None
            return SSPData(**ssp_data_dict)""","""    return SSPData(**ssp_data_dict)"""))
ed('data_loaders/load_filter_data.py',("""        wave = hdf["wave"][...]
        transmission = hdf["transmission"][...]

        if transmission.min() < -TOL:
            raise ValueError(f"Negatively-valued transmission curve for {fn}")
        elif transmission.max() > 1 + TOL:
            raise ValueError(f"transmission curve exceeds unity for {fn}")
        else:
            transmission = np.clip(transmission, 0.0, 1.0)
""","""        wave, transmission = hdf["wave"][()], hdf["transmission"][()]

    if np.any(transmission < -TOL):
        raise ValueError(f"Negatively-valued transmission curve for {fn}")
    if np.any(transmission > 1 + TOL):
        raise ValueError(f"transmission curve exceeds unity for {fn}")
    transmission = np.clip(transmission, 0.0, 1.0)
"""))
ed('data_loaders/load_emline_info.py',("    indx_lines = np.array(\n        [ssp_data.ssp_emline_wave._fields.index(name) for name in emline_names]\n    )","    where = {name: i for i, name in enumerate(ssp_data.ssp_emline_wave._fields)}\n    indx_lines = np.array(\n        [list(where).index(name) for name in emline_names]\n    )"))
ed('data_loaders/retrieve_fake_fsps_data.py',("""    for iz in range(n_met):
        for iage in range(n_age):
            c0 = ssp_plaw_data_c0[iz, iage]
            c1 = ssp_plaw_data_c1[iz, iage]
            spec_ssp[iz, iage, :] = 10 ** (c0 + c1 * np.log10(ssp_wave))
    return spec_ssp""","""    spec_ssp[...] = 10 ** (
        ssp_plaw_data_c0[:, :, None] + ssp_plaw_data_c1[:, :, None] * np.log10(ssp_wave)
    )
    return spec_ssp"""))
ren('data_loaders/retrieve_fake_fsps_data.py','_get_ssp_emline_luminosity','_lsst_u_trans')
