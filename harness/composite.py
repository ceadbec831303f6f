"""Whole observations on the real code: galaxy, dust, filters, tables."""

import numpy as np

from . import dust as DU
from . import galaxy as G
from . import phot as M
from .core import arr, dec, num, nums


def reddening(law, w, p):
    a = DU.D()["a"]
    return {"calzetti": lambda: a.calzetti00_k_lambda(w),
            "leitherer": lambda: a.leitherer02_k_lambda(w),
            "noll": lambda: a.noll09_k_lambda(w, *p),
            "salim": lambda: a.sbl18_k_lambda(w, *p),
            "triweight": lambda: a.triweight_k_lambda(w, *p)}[law]()


def compose(c, i):
    d, pp = M.D()["dsps"], M.D()["pp"]
    ws, flux = dec(i["ws"]), dec(i["flux"])
    wfs, tfs = dec(i["wfs"]), dec(i["tfs"])
    z, p = float(i["z"]), tuple(float(x) for x in i["c"])

    def sed(fl):
        tail = (dec(i["scatter"]), dec(i["lgmets"]), dec(i["lgage"]), fl, dec(i["tobs"]))
        kw = G._smin(i)
        if i["mode"] == "ln":
            return d.calc_rest_sed_sfh_table_lognormal_mdf(
                c.state["t"], c.state["s"], dec(i["lgmet"]), *tail, **kw).rest_sed
        return d.calc_rest_sed_sfh_table_met_table(
            c.state["t"], c.state["s"], dec(i["lgz"]), *tail, **kw).rest_sed

    k = reddening(i["law"], ws / 1e4, [float(x) for x in i["p"]])
    tr = DU.D()["a"]._frac_transmission_from_k_lambda(k, float(i["av"]), float(i["floor"]))
    s = sed(flux)
    fl_d = np.asarray(tr) * flux
    fs = list(zip(wfs, tfs))
    return {"sed": arr(s), "trans": arr(tr), "dsed": arr(sed(fl_d)),
            "rest": arr([float(d.calc_rest_mag(ws, s, w, t)) for w, t in fs]),
            "drest": arr([float(d.calc_rest_mag(ws, tr * s, w, t)) for w, t in fs]),
            "obs": arr([float(d.calc_obs_mag(ws, s, w, t, z, *p)) for w, t in fs]),
            "trest": arr(pp.precompute_ssp_restmags(ws, flux, wfs, tfs)),
            "dtrest": arr(pp.precompute_ssp_restmags(ws, fl_d, wfs, tfs)),
            "tk": arr(pp.precompute_ssp_restmags_z_kcorrect(ws, flux, wfs, tfs, z)),
            "tobs": arr(pp.precompute_ssp_obsmags_on_z_table(
                ws, flux, wfs, tfs, np.array([z]), *p)),
            "mu": num(M.D()["fw"].distance_modulus_to_z(z, *p))}


OPS = dict(G.OPS, compose=compose)
