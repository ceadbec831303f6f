"""C28: import orders"""
from .. import calls as M
from .. import registry as R
from ..calls import OPS  # noqa: F401

REAL = {
    "pkg": ["dsps", "dsps.utils", "dsps.constants", "dsps.imf.surviving_mstar",
            "dsps.imf.remnant_mass", "dsps.em_lines.equivalent_width"],
    "data": ["dsps.data_loaders", "dsps.data_loaders.load_filter_data",
             "dsps.data_loaders.retrieve_fake_fsps_data", "dsps.data_loaders.defaults",
             "dsps.data_loaders.load_emline_info", "dsps.data_loaders.retrieve_fsps_data"],
    "cosmo": ["dsps.cosmology", "dsps.cosmology.flat_wcdm", "dsps.cosmology.defaults"],
    "phot": ["dsps.photometry", "dsps.photometry.photpop", "dsps.photometry.photometry_kernels",
             "dsps.photometry.utils"],
    "sed": ["dsps.sed", "dsps.sed.stellar_sed", "dsps.sed.ssp_weights",
            "dsps.sed.metallicity_weights", "dsps.sed.stellar_age_weights"],
    "dust": ["dsps.dust", "dsps.dust.att_curves", "dsps.dust.blackbody", "dsps.dust.utils"],
    "burst": ["dsps.sfh.diffburst", "dsps.sfh"],
    "mzr": ["dsps.metallicity.umzr", "dsps.metallicity.mzr", "dsps.metallicity.defaults"],
}
NAMES = [("dsps", n) for n in (
    "SSPData", "load_ssp_templates", "load_transmission_curve", "calc_obs_mag", "calc_rest_mag",
    "calc_age_weights_from_sfh_table", "calc_lgmet_weights_from_lognormal_mdf",
    "calc_lgmet_weights_from_lgmet_table", "calc_ssp_weights_sfh_table_lognormal_mdf",
    "calc_ssp_weights_sfh_table_met_table", "calc_rest_sed_sfh_table_lognormal_mdf",
    "calc_rest_sed_sfh_table_met_table", "cumulative_mstar_formed", "__version__")] + [
    ("dsps.cosmology", n) for n in ("DEFAULT_COSMOLOGY", "TODAY", "PLANCK15", "WMAP5", "FSPS_COSMO",
                                    "age_at_z", "age_at_z0", "lookback_to_z")] + [
    ("dsps.dust", n) for n in ("blackbody_freq_density", "blackbody_wave_density")] + [
    ("dsps.metallicity.umzr", n) for n in ("DEFAULT_MZR_PARAMS", "DEFAULT_MZR_U_PARAMS")] + [
    ("dsps.sfh.diffburst", n) for n in ("DEFAULT_BURST_PARAMS", "DEFAULT_BURST_U_PARAMS")] + [
    ("dsps.metallicity.defaults", "DEFAULT_MET_PARAMS")]
VALUES = [n for n in NAMES if n[1].isupper() or n[1] in ("DEFAULT_COSMOLOGY", "WMAP5", "PLANCK15")]


def run(c):
    M.D()
    rng = c.rng
    cs = c.model("MC_Imports")
    c.notes["samples"] = cs[:2]
    rng.shuffle(cs)
    # every real module is the first import of some process
    first = [(grp, m) for grp in REAL for m in REAL[grp]]
    plans = []
    by = {}
    for k in cs:
        by.setdefault(k["asked"][0], []).append(k)
    for r in range(c.n(1, 5)):
        for grp, m in first:
            k = by[grp][int(rng.integers(len(by[grp])))]
            plans.append((k, [m] + [str(rng.choice(REAL[g])) for g in k["asked"][1:]]))
    names = [f.name for f in R.FNS if f.f64]
    order = [str(n) for n in rng.permutation(names)]
    runs, j = [], 0
    for k, mods in plans:
        qs = []
        if k["used"]:
            qs.append({"op": "jax", "jit": bool(rng.random() < 0.5)})
        for m in mods:
            qs.append({"op": "star" if rng.random() < 0.3 else "import", "module": m})
            qs.append({"op": "x64"})
        todo = [n for n in NAMES if n[1] == "TODAY" or rng.random() < 0.25]
        for mod, n in todo:
            qs.append({"op": "get", "module": mod, "name": n})
        for _ in range(c.n(5, 12)):
            qs.append({"op": "call", "f": order[j % len(order)], "ver": 1, "size": 0})
            j += 1
        runs.append(({} if not k["env"] else {"JAX_ENABLE_X64": k["env"]}, qs))
    ans = M.run_processes(runs)
    # the values of one ordinary process that imports the package and then its parts
    calls = sorted({(q["f"]) for _, qs in runs for q in qs if q["op"] == "call"})
    ref = [{"op": "import", "module": "dsps"}] + \
        [{"op": "call", "f": f, "ver": 1, "size": 0} for f in calls] + \
        [{"op": "get", "module": m, "name": n} for m, n in NAMES]
    half = len(calls) // 2 + 1
    near = [{"op": "near", "f": str(f), "ver": int(rng.integers(1, 1000)), "size": 0}
            for f in rng.permutation([f.name for f in R.FNS if f.resolve and f.f64])]
    steps = [near[k::3] for k in range(3)]
    got = M.run_processes([({}, [ref[0]] + ref[1: half]), ({}, [ref[0]] + ref[half:])] +
                          [({}, [ref[0]] + q) for q in steps])
    for qs, an in zip(steps, got[2:]):
        c.begin("tiny steps")
        c.state["answers"] = an[1:]
        for q in qs:
            c.do("near", f=q["f"], ver=str(q["ver"]), size=0)
    known = {}
    for q, a in zip(ref[1:], got[0][1:] + got[1][1:]):
        known[q["f"] if q["op"] == "call" else q["module"] + "." + q["name"]] = a
    for (env, qs), an in zip(runs, ans):
        c.begin("process")
        c.state["known"] = known
        for q in qs:
            if q["op"] in ("call", "get"):
                kk = q["f"] if q["op"] == "call" else q["module"] + "." + q["name"]
                if q["op"] == "get" and not known[kk].get("r"):
                    continue
                c.do("reference", key=kk)
        c.state["answers"] = list(an)
        for q in qs:
            if q["op"] == "call":
                c.do("call", key=q["f"])
            elif q["op"] == "get":
                c.do("get", key=q["module"] + "." + q["name"])
            elif q["op"] in ("import", "star"):
                c.do("import", module=q["module"], how=q["op"], env=env.get("JAX_ENABLE_X64", ""))
            else:
                c.do(q["op"])
    c.validate("TR_Calls")
