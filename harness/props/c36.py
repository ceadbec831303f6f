"""C36: shipped calibrations"""

from .. import calib as M
from ..calib import OPS  # noqa: F401
from ..core import num

U, MM, S, R = ("dsps.metallicity.umzr", "dsps.metallicity.mzr", "dsps.imf.surviving_mstar",
               "dsps.imf.remnant_mass")
W, B = "dsps.cosmology.flat_wcdm", "dsps.sfh.diffburst"
K, BB, DU = "dsps.constants", "dsps.dust.blackbody", "dsps.dust.att_curves"
READ = [(K, n) for n in "SFR_MIN T_BIRTH_MIN T_TABLE_MIN LGMET_LO LGMET_HI L_SUN_CGS".split()] + [
    ("dsps.utils", "YEAR_PER_GYR"), ("dsps.photometry.photometry_kernels", "AB0"),
    ("dsps.cosmology", "DEFAULT_COSMOLOGY"), ("dsps.metallicity.defaults", "DEFAULT_MET_PARAMS")] + [
    (W, n) for n in "C_SPEED MPC YEAR RHO_CRIT0_KPC3_UNITY_H PLANCK15 WMAP5 FSPS_COSMO".split()] + [
    (BB, n) for n in "H_PLANCK K_BOLTZ C_SPEED WATTS_PER_LSUN".split()] + [
    (DU, n) for n in "RV_C00 UV_BUMP_W0 UV_BUMP_DW".split()] + [
    (m, n + "_PARAMS") for m in (S, R)
    for n in "DEFAULT SALPETER CHABRIER KROUPA VAN_DOKKUM".split()] + [
    (U, n) for n in ("DEFAULT_MZR_PARAMS MZR_T0_PDICT MZR_T0_PBDICT MZR_TEVOL_PDICT MZR_TEVOL_PBDICT "
                     "MZR_PBOUNDS MZR_SCATTER TLOOK_C MZR_EVOL_T0 MZR_EVOL_K").split()] + [
    (MM, n) for n in ("MZR_T0_PDICT MZR_T0_PARAM_PBDICT MZR_VS_T_PDICT MZR_SCATTER_PDICT "
                      "MZR_SCATTER_PBDICT DEFAULT_MET_PARAMS MAIOLINO08_PARAMS MZR_EVOL_T0 "
                      "MZR_EVOL_K").split()] + [
    (B, "DEFAULT_BURST_PARAMS"), (B, "DEFAULT_LGFBURST")]
FIELDS = [("dsps", "SSPData"), ("dsps.data_loaders.defaults", "TransmissionCurve"),
          ("dsps.sed.stellar_sed", "RestSED"), ("dsps.sed.ssp_weights", "SSPWeights"),
          (W, "CosmoParams"), (B, "BurstParams"), (B, "BurstUParams"), (U, "MZRParams"),
          (U, "MZRUParams")]
TEXT = [("dsps.data_loaders.defaults", n) for n in
        ("DEFAULT_SSP_BNAME", "DEFAULT_SSP_BNAME_EMLINES", "DEFAULT_SSP_KEYS")]


def run(c):
    cs = c.model("MC_Calib")
    c.notes["samples"] = cs[:2]
    M.D()
    rng = c.rng

    def spell(order):
        for k in order:
            op, w = k
            c.do(op, where=list(w))

    everything = [("read", w) for w in READ] + [("fields", w) for w in FIELDS] + \
        [("text", w) for w in TEXT]
    for r in range(c.n(2, 10)):
        c.begin("every calibration")
        rng.shuffle(everything)
        spell([(o, tuple(w)) for o, w in everything])
        for f in ((S, "surviving_mstar"), (R, "remnant_mass")):
            for lg in rng.uniform(4, 10.2, 4):
                c.do("use", fn=list(f), where=[f[0], "CHABRIER_PARAMS"], args=[num(round(lg, 4))])
    for r in range(c.n(2, 10)):
        c.begin("parameters drawn within the shipped bounds")
        bounds = [(U, "MZR_T0_PBDICT"), (U, "MZR_TEVOL_PBDICT"), (MM, "MZR_T0_PARAM_PBDICT"),
                  (MM, "MZR_SCATTER_PBDICT")]
        rng.shuffle(bounds)
        for w in bounds:
            c.do("draw", where=[str(x) for x in w], seed=int(rng.integers(2 ** 31)))
        spell([(o, tuple(w)) for o, w in everything])
    rng.shuffle(cs)
    for k in cs[: c.n(40, 700)]:
        c.begin("model order")
        spell([("read", w) for w in k["reads"]])
    c.validate("TR_Calib")
