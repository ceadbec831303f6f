------------------------------- MODULE Calib -------------------------------
(***************************************************************************)
(* The calibrations DSPS ships: physical constants, published fits and the *)
(* defaults of every optional argument.  A row is                          *)
(*   <<module, name, names of the entries in order, numbers in order>>     *)
(***************************************************************************)
EXTENDS Vec
U == "dsps.metallicity.umzr"
M == "dsps.metallicity.mzr"
S == "dsps.imf.surviving_mstar"
R == "dsps.imf.remnant_mass"
B == "dsps.sfh.diffburst"
W == "dsps.cosmology.flat_wcdm"
T0Names(y0) == <<"mzr_t0_" \o y0, "mzr_t0_x0", "mzr_t0_k", "mzr_t0_slope_lo", "mzr_t0_slope_hi">>
T0Values == <<"0.05", "10.5", "1", "0.4", "0.1">>
T0Bounds == <<"-1.0", "0.25", "10.25", "10.75", "0.5", "2", "0.1", "1.0", "0", "0.3">>
EvNames == <<"c0_y_at_tlook_c", "c1_y_at_tlook_c", "c0_early_time_slope", "c1_early_time_slope">>
EvValues == <<"-1.455", "0.13", "-0.959", "0.067242">>
EvBounds == <<"-2", "-1", "0", "0.5", "-1.5", "-0.5", "0", "0.5">>
SNames == <<"a", "b", "lgk1", "d", "e", "f", "lgk2", "h">>
Surviving(a, d) == <<a, "8", "-0.5", d, "0.08", "6.5", "0.7", "0.005">>
RNames == <<"a", "b", "lgk1", "d", "e">>
Remnant(a) == <<a, "7", "1", "1.3", "0.2">>
CNames == <<"Om0", "w0", "wa", "h">>
Lcdm(om, h) == <<om, "-1", "0", h>>
Number(m, n, v) == <<m, n, << >>, <<v>> >>
Shipped == <<
  Number("dsps.constants", "SFR_MIN", "1e-14"), Number("dsps.constants", "T_BIRTH_MIN", "0.001"),
  Number("dsps.constants", "T_TABLE_MIN", "0.01"), Number("dsps.constants", "LGMET_LO", "-10"),
  Number("dsps.constants", "LGMET_HI", "10"), Number("dsps.constants", "L_SUN_CGS", "3.828e33"),
  Number("dsps.utils", "YEAR_PER_GYR", "1e9"),
  Number(W, "C_SPEED", "2.99792458e8"), Number(W, "MPC", "3.08567758149e24"),
  Number(W, "YEAR", "31556925.2"), Number(W, "RHO_CRIT0_KPC3_UNITY_H", "277.536627"),
  Number("dsps.dust.blackbody", "H_PLANCK", "6.62607015e-34"), Number("dsps.dust.blackbody", "K_BOLTZ", "1.380649e-23"),
  Number("dsps.dust.blackbody", "C_SPEED", "299792458"), Number("dsps.dust.blackbody", "WATTS_PER_LSUN", "3.828e26"),
  Number("dsps.dust.att_curves", "RV_C00", "4.05"), Number("dsps.dust.att_curves", "UV_BUMP_W0", "0.2175"),
  Number("dsps.dust.att_curves", "UV_BUMP_DW", "0.0350"),
  Number("dsps.photometry.photometry_kernels", "AB0", "1.13492e-13"),
  <<W, "PLANCK15", CNames, Lcdm("0.3075", "0.6774")>>, <<W, "WMAP5", CNames, Lcdm("0.277", "0.702")>>,
  <<W, "FSPS_COSMO", CNames, Lcdm("0.27", "0.72")>>,
  <<"dsps.cosmology", "DEFAULT_COSMOLOGY", CNames, Lcdm("0.3075", "0.6774")>>,
  <<S, "DEFAULT_PARAMS", SNames, Surviving("0.225", "0.145")>>, <<S, "SALPETER_PARAMS", SNames, Surviving("0.13", "0.055")>>,
  <<S, "CHABRIER_PARAMS", SNames, Surviving("0.225", "0.145")>>, <<S, "KROUPA_PARAMS", SNames, Surviving("0.211", "0.13")>>,
  <<S, "VAN_DOKKUM_PARAMS", SNames, Surviving("0.238", "0.156")>>,
  <<R, "DEFAULT_PARAMS", RNames, Remnant("-1.42")>>, <<R, "SALPETER_PARAMS", RNames, Remnant("-1.67")>>,
  <<R, "CHABRIER_PARAMS", RNames, Remnant("-1.42")>>, <<R, "KROUPA_PARAMS", RNames, Remnant("-1.45")>>,
  <<R, "VAN_DOKKUM_PARAMS", RNames, Remnant("-1.4")>>,
  <<U, "DEFAULT_MZR_PARAMS", T0Names("ytp") \o EvNames, T0Values \o EvValues>>,
  <<U, "MZR_T0_PDICT", T0Names("ytp"), T0Values>>, <<U, "MZR_T0_PBDICT", T0Names("ytp"), T0Bounds>>,
  <<U, "MZR_TEVOL_PDICT", EvNames, EvValues>>, <<U, "MZR_TEVOL_PBDICT", EvNames, EvBounds>>,
  <<U, "MZR_PBOUNDS", T0Names("ytp") \o EvNames, T0Bounds \o EvBounds>>,
  Number(U, "MZR_SCATTER", "0.1"), Number(U, "TLOOK_C", "8.44"), Number(U, "MZR_EVOL_T0", "12.5"), Number(U, "MZR_EVOL_K", "1.6"),
  <<M, "MZR_T0_PDICT", T0Names("y0"), T0Values>>, <<M, "MZR_T0_PARAM_PBDICT", T0Names("y0"), T0Bounds>>,
  <<M, "MZR_VS_T_PDICT", <<"c0_y_at_tlook_c", "c1_y_at_tlook_c", "tlook_c", "c0_early_time_slope", "c1_early_time_slope">>,
       <<"-1.455", "0.13", "8.44", "-0.959", "0.067242">> >>,
  <<M, "MZR_SCATTER_PDICT", <<"mzr_scatter">>, <<"0.1">> >>, <<M, "MZR_SCATTER_PBDICT", <<"mzr_scatter">>, <<"0.01", "0.5">> >>,
  <<M, "DEFAULT_MET_PARAMS", << >>, T0Values \o <<"-1.455", "0.13", "8.44", "-0.959", "0.067242", "0.1">> >>,
  <<"dsps.metallicity.defaults", "DEFAULT_MET_PARAMS", << >>, T0Values \o <<"-1.455", "0.13", "8.44", "-0.959", "0.067242", "0.1">> >>,
  <<M, "MAIOLINO08_PARAMS", <<"0.07", "0.7", "2.2", "3.5", "3.51">>,
       <<"11.18", "9.04", "11.57", "9.04", "12.38", "8.99", "12.76", "8.79", "12.87", "8.90">> >>,
  Number(M, "MZR_EVOL_T0", "12.5"), Number(M, "MZR_EVOL_K", "1.6"),
  <<B, "DEFAULT_BURST_PARAMS", <<"lgfburst", "lgyr_peak", "lgyr_max">>, <<"-3", "5.5", "7">> >>,
  Number(B, "DEFAULT_LGFBURST", "-3")
>>
\* order of the entries of the records that calls return
Records == <<
  <<"dsps", "SSPData", <<"ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux", "ssp_emline_wave", "ssp_emline_luminosity">> >>,
  <<"dsps.data_loaders.defaults", "TransmissionCurve", <<"wave", "transmission">> >>,
  <<"dsps.sed.stellar_sed", "RestSED", <<"rest_sed", "weights", "lgmet_weights", "age_weights">> >>,
  <<"dsps.sed.ssp_weights", "SSPWeights", <<"weights", "lgmet_weights", "age_weights">> >>,
  <<"dsps.cosmology.flat_wcdm", "CosmoParams", CNames>>,
  <<"dsps.sfh.diffburst", "BurstParams", <<"lgfburst", "lgyr_peak", "lgyr_max">> >>,
  <<"dsps.sfh.diffburst", "BurstUParams", <<"u_lgfburst", "u_lgyr_peak", "u_lgyr_max">> >>,
  <<U, "MZRParams", T0Names("ytp") \o EvNames>>,
  <<U, "MZRUParams", [i \in 1..9 |-> "u_" \o (T0Names("ytp") \o EvNames)[i]]>>
>>
Names == <<
  <<"dsps.data_loaders.defaults", "DEFAULT_SSP_BNAME", <<"ssp_data_fsps_v3.2_lgmet_age.h5">> >>,
  <<"dsps.data_loaders.defaults", "DEFAULT_SSP_BNAME_EMLINES", <<"fsps_v0.4.7_mist_c3k_a_kroupa_wNE_logGasU-2.0_logGasZ0.0.h5">> >>,
  <<"dsps.data_loaders.defaults", "DEFAULT_SSP_KEYS", <<"ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux">> >>
>>
\* a function called without its optional arguments uses this calibration
Uses == <<
  <<S, "surviving_mstar", "CHABRIER_PARAMS">>, <<R, "remnant_mass", "CHABRIER_PARAMS">>
>>
Row(table, m, n) == {i \in 1..Len(table) : table[i][1] = m /\ table[i][2] = n}
The(table, m, n) == table[CHOOSE i \in Row(table, m, n) : TRUE]
Value(m, n) == N(The(Shipped, m, n)[4][1])
=============================================================================
