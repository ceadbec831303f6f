"""Emission-line tables, retrieval from a stand-in FSPS, synthetic data."""

import contextlib
import io
import os
import runpy
import sys
import types
from collections import namedtuple

import numpy as np

from .core import REPO, arr, dec, import_dsps, num, nums

_D = {}
CFG = {}
WEIGHT = {"gas_logz": 3.0, "gas_logu": 7.0, "imf_type": 13.0}


def standin(z, neb, kws, n_age, n_j):
    """EmLines!StandIn"""
    a = np.arange(1, n_age + 1)[:, None]
    j = np.arange(1, n_j + 1)[None, :]
    kw = sum(WEIGHT.get(k, 29.0) * (1 + v / 10) for k, v in kws.items())
    return (1000 * z + 37 * a + j / 7) * (2.0 if neb else 1.0) * (1 + kw)


class StellarPopulation:
    """what DSPS uses of python-fsps"""

    def __init__(self, compute_vega_mags=False, vactoair_flag=False, zcontinuous=1,
                 add_neb_emission=False, zmet=None, **kwargs):
        c = CFG
        self._kw = (zmet or 1, add_neb_emission, kwargs)
        self._wrong = 1000.0 if zcontinuous != 0 else 1.0
        self.zlegend = np.array(c["zlegend"])
        self.log_age = np.array(c["log_age"])
        self.wavelengths = np.array(c["wave"])
        if c["lines"]:
            self.emline_wavelengths = np.array(c["lwave"])
            self.emline_luminosity = self._val(len(c["lwave"])) / 1000.0

    def _val(self, n):
        z, neb, kws = self._kw
        return standin(z, neb, kws, len(CFG["log_age"]), n) * self._wrong

    def get_spectrum(self, zmet=None, tage=0.0, peraa=False):
        f = self._val(len(self.wavelengths)) * (3.0 if peraa else 1.0)
        if zmet is not None:
            f = standin(zmet, *self._kw[1:], len(CFG["log_age"]), len(self.wavelengths))
        return np.array(self.wavelengths), (f if tage <= 0 else f[0])


def D():
    if not _D:
        m = types.ModuleType("fsps")
        m.StellarPopulation = StellarPopulation
        m.__version__ = "0.4.7"
        sys.modules["fsps"] = m
        import_dsps()
        from dsps import data_loaders as dl
        from dsps.data_loaders import load_emline_info as le
        from dsps.data_loaders import retrieve_fake_fsps_data as rf
        from dsps.data_loaders.defaults import SSPData

        _D.update(dl=dl, le=le, rf=rf, SSPData=SSPData)
    return _D


# ---------------------------------------------------------------- subsets
def _rest(s):
    return [arr(s.ssp_lgmet), arr(s.ssp_lg_age_gyr), arr(s.ssp_wave), arr(s.ssp_flux)]


def _state(s):
    return {"names": list(s.ssp_emline_wave._fields), "lwave": nums(list(s.ssp_emline_wave)),
            "llum": nums(s.ssp_emline_luminosity), "rest": _rest(s)}


def make(c, i):
    d = D()
    r = [np.array(dec(a["v"]), dtype=a["dt"]).reshape(a["sh"]) for a in i["rest"]]
    lw = namedtuple("EmLineWave", i["names"])(*[float(v) for v in i["lwave"]])
    ll = np.array(dec(i["llum"]), dtype=i.get("ldt", "float64"))
    if i["jax"]:
        import jax.numpy as jnp

        r, ll = [jnp.array(x) for x in r], jnp.array(ll)
    c.state["ssp"] = d["SSPData"](*r, lw, ll)
    return {}


def subset(c, i):
    s = c.state["ssp"]
    names = {"list": list, "tuple": tuple}[i["how"]](i["want"])
    out = {}
    try:
        new = D()["le"].get_subset_emline_data(s, names)
        out.update(_state(new))
        c.state["ssp"] = new
    except Exception as ex:
        out["err"] = type(ex).__name__
    out["given"] = _state(s)
    if list(names) != list(i["want"]):
        out["given"] = "the list of names was changed"
    return out


def parse(c, i):
    if i["path"]:
        fn = os.path.join(REPO, i["path"])
    else:
        fn = os.path.join(c.scratch.path, "lines.dat")
        with open(fn, "w", newline="") as fh:
            fh.write(i["eol"].join(i["text"]) + i["last"])
    r = D()["le"].read_emlines_info_fsps(fn, **({"testmode": True} if i["testmode"] else {}))
    d = r[0] if i["testmode"] else r
    return {"names": list(d), "waves": nums(list(d.values())),
            "array": nums(r[1]) if i["testmode"] else []}


def read_list(path):
    return open(os.path.join(REPO, path)).read().splitlines()


# ---------------------------------------------------------------- fsps
def fsps(c, i):
    CFG.clear()
    CFG.update({k: (v if isinstance(v, bool) else [float(x) for x in v])
                for k, v in i["cfg"].items()})
    if "drn" not in c.state:
        c.state["drn"] = c.scratch.new("export")
    return {}


def _ssp(s):
    lines = s.ssp_emline_wave is not None
    r = {"lgmet": arr(s.ssp_lgmet), "lgage": arr(s.ssp_lg_age_gyr), "wave": arr(s.ssp_wave),
         "flux": arr(s.ssp_flux), "lines": lines}
    if lines != (s.ssp_emline_luminosity is not None):
        r["lines"] = "one of the two"
    elif lines:
        r.update(names=list(s.ssp_emline_wave._fields), lwave=nums(list(s.ssp_emline_wave)),
                 llum=arr(s.ssp_emline_luminosity))
    return r


def _py(k, v):
    return int(v) if k == "imf_type" else float(v)


def retrieve(c, i):
    kw = {k["k"]: _py(k["k"], k["v"]) for k in i["kws"]}
    if not i["default"]:
        kw["add_neb_emission"] = i["neb"]
    with contextlib.redirect_stdout(io.StringIO()):
        return _ssp(D()["dl"].retrieve_ssp_data_from_fsps(**kw))


def export(c, i):
    fn = os.path.join(c.state["drn"], i["name"])
    argv = ["write_fsps_data_to_disk.py", fn]
    for k in i["kws"]:
        argv += ["--%s=%s" % (k["k"], k["v"])]
    if i["last"]:
        argv = argv[:1] + argv[2:] + [argv[1]]
    old = sys.argv
    sys.argv = argv
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(os.path.join(REPO, "scripts", "write_fsps_data_to_disk.py"),
                           run_name="__main__")
    except SystemExit as ex:
        if ex.code not in (0, None):
            raise
    finally:
        sys.argv = old
    return {}


def load(c, i):
    fn = os.path.join(c.state["drn"], i["name"])
    return _ssp(D()["dl"].load_ssp_templates(fn=fn))


# ---------------------------------------------------------------- synthetic
def _table(name):
    p = os.path.join(REPO, "dsps", "data_loaders", "tests", "testing_data", name)
    return [ln.split() for ln in open(p) if ln.strip() and not ln.startswith("#")]


def fake(c, i):
    d = D()
    kw = {} if i["n"] == 166 and i["default"] else {"n_line": i["n"]}
    s = d["rf"].load_fake_ssp_data(**kw)
    fl = np.asarray(s.ssp_flux)
    c0, c1 = _table("ssp_plaw_data_c0.txt"), _table("ssp_plaw_data_c1.txt")
    rng = np.random.default_rng(i["pick"])
    picks = []
    for z, a, j in [(0, 0, 0), (21, 93, 1962), (21, 0, 5)] + \
            [(int(rng.integers(22)), int(rng.integers(94)), int(rng.integers(1963))) for _ in range(20)]:
        picks.append({"f": num(fl[z, a, j]), "c0": c0[z][a], "c1": c1[z][a], "w": num(s.ssp_wave[j])})
    r = {"shapes": [list(np.shape(x)) for x in (s.ssp_lgmet, s.ssp_lg_age_gyr, s.ssp_wave, fl)],
         "lgmet": nums(s.ssp_lgmet), "lgage": nums(s.ssp_lg_age_gyr), "wave": nums(s.ssp_wave),
         "nbad": int((~(np.isfinite(fl) & (fl > 0))).sum()), "picks": picks,
         "lines": s.ssp_emline_wave is not None}
    if r["lines"] != (s.ssp_emline_luminosity is not None):
        r["lines"] = "one of the two"
    elif r["lines"]:
        ll = np.asarray(s.ssp_emline_luminosity)
        r.update(names=list(s.ssp_emline_wave._fields), lwave=nums(list(s.ssp_emline_wave)),
                 lshape=list(ll.shape), lbad=int((~(np.isfinite(ll) & (ll > 0))).sum()),
                 lmin=num(ll.min()), lmax=num(ll.max()),
                 # for every template, how many of its lines are faint
                 faint=sorted({int(v) for v in (ll < 1e-2 * 3.828e33).sum(axis=-1).ravel()}))
    return r


def fake_filters(c, i):
    d = D()
    w, *t = d["rf"].load_fake_filter_transmission_curves()
    return {"wave": nums(w), "swave": nums(d["rf"].load_fake_ssp_data(n_line=0).ssp_wave),
            "trans": [nums(x) for x in t]}


OPS = dict(make=make, subset=subset, parse=parse, fsps=fsps, retrieve=retrieve, export=export,
           load=load, fake=fake, fake_filters=fake_filters)
