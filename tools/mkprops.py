"""writes /verif/properties.jsonl (the text of the properties lives here)"""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})


U = "dsps/utils.py"
p("C01", "Mass formed is the running integral of the star formation history",
  "For every increasing time table in Gyr (first entry at least 0.001 Gyr) and every SFR table in Msun/yr, the cumulative mass formed at each table time is 1e9 times the trapezoidal integral of the SFR from 0.001 Gyr, where the SFR rises linearly from 1e-14 Msun/yr, to that time. It is non-decreasing for non-negative SFR, does not depend on later table entries, and does not change at the old times when a point on a linear segment is inserted into the table.",
  ["inputs", "histories"], "all time grids (regular, logarithmic, irregular, one knot to hundreds), all SFHs including zeros, spikes, quenching and late onset",
  "The one test checks a single smooth table against a numpy re-implementation; it samples one grid and no degenerate or extended histories.",
  [U], [("cumulative_mstar_formed", U), ("cumtrapz", U)], ["dsps.cumulative_mstar_formed"])
p("C02", "Stellar age weights are the mass fractions formed in each age bin",
  "For every tabulated SFH, increasing age grid of at least three points and observation time, the age weight of template i is the stellar mass formed while stars of age bin i were born, divided by the mass formed over all bins; bins are bounded half-way (half the local bin width) around each log-age, births are never earlier than 0.001 Gyr, log mass is interpolated linearly in log time and held constant outside the table, and SFRs below the floor sfr_min count as the floor. Whenever some mass was formed inside the age grid the weights are non-negative (if the bin bounds increase), sum to one, vanish for ages older than the universe at the observation time, and do not change when the SFH is rescaled.",
  ["inputs", "histories"], "all SFH tables, age grids, observation times (inside, on a knot, before, after the table) and SFR floors",
  "Tests check shape, finiteness and unit sum for a few smooth SFHs; a wrong bin, edge, clamp or floor keeps all of these.",
  ["dsps/sed/stellar_age_weights.py", U],
  [("calc_age_weights_from_sfh_table", "dsps/sed/stellar_age_weights.py")],
  ["dsps.calc_age_weights_from_sfh_table"])
p("C03", "Causality: what happens after the observation never changes it",
  "The age weights, metallicity weights and restframe SED of a galaxy observed at t_obs depend only on the star formation and metallicity histories up to and including the first table time at or after t_obs. Replacing, rescaling or zeroing any later entry (or moving the later table times) leaves every one of these outputs unchanged.",
  ["inputs", "histories"], "all pairs of histories that agree up to the first knot at or past t_obs",
  "A two-run (hyper)property; no test compares two histories.",
  ["dsps/sed/stellar_age_weights.py", "dsps/sed/metallicity_weights.py", "dsps/sed/stellar_sed.py"],
  [("interpolation of the cumulative history at t_birth <= t_obs", "dsps/sed/stellar_age_weights.py")],
  ["dsps.calc_age_weights_from_sfh_table", "dsps.calc_rest_sed_sfh_table_*"])
p("C04", "Lognormal metallicity weights are the triweight mass in each metallicity bin",
  "For every centre, positive scatter and increasing grid of at least three log-metallicities, weight i is the share of a triweight kernel (support three scatters either side of the centre, its exact cumulative polynomial) that falls between the edges of bin i, renormalised to one; inner edges lie half the local bin width below each grid point and the outer edges are -10 and +10. A distribution that misses [-10, 10] altogether puts weight one in the nearest bin, the weights always sum to one, and they are non-negative whenever the bin edges increase.",
  ["inputs"], "all centres (inside, outside and far from the grid), scatters from tiny to wider than the grid, regular and irregular grids",
  "Tests check unit sum and the two extreme bins on one regular grid.",
  ["dsps/sed/metallicity_weights.py", U],
  [("calc_lgmet_weights_from_lognormal_mdf", "dsps/sed/metallicity_weights.py")],
  ["dsps.calc_lgmet_weights_from_lognormal_mdf"])
p("C05", "Metallicity-history weights follow the metallicity at each age's birth",
  "Given a tabulated metallicity history, column j of the (metallicity x age) weight matrix is the lognormal metallicity weights (C04) centred on the history's log-metallicity at the time t_obs - age_j was born, that is, linearly interpolated in log time, constant outside the table, birth never earlier than 0.001 Gyr. Every column sums to one over the number of ages, so the matrix sums to one.",
  ["inputs", "histories"], "all metallicity histories, age grids and observation times",
  "Tests look only at shapes and the sum of the whole matrix.",
  ["dsps/sed/metallicity_weights.py"], [("calc_lgmet_weights_from_lgmet_table", "dsps/sed/metallicity_weights.py")],
  ["dsps.calc_lgmet_weights_from_lgmet_table"])
p("C06", "Joint SSP weights are the product of age and metallicity weights",
  "The joint weights have shape (n_met, n_age), sum to one, are non-negative when the bin bounds of both grids increase, and entry (i, j) is age weight j times the metallicity weight i (of that age, when a metallicity history is given), renormalised. Summing over metallicity gives the returned age weights; summing over age gives the returned metallicity weights in the lognormal case; and the returned marginals are those of C02, C04 and C05.",
  ["inputs"], "all galaxies (SFH, metallicity model, t_obs) and template grids, including n_met = n_age and single-age populations",
  "Tests check the sum and shapes only, so transposed or mis-broadcast factors of equal size go unnoticed.",
  ["dsps/sed/ssp_weights.py"], [("calc_ssp_weights_sfh_table_*", "dsps/sed/ssp_weights.py")],
  ["dsps.calc_ssp_weights_sfh_table_lognormal_mdf", "dsps.calc_ssp_weights_sfh_table_met_table"])
p("C07", "The composite SED is formed mass times the weighted sum of templates",
  "The restframe SED equals the stellar mass formed by t_obs (C01 with the SFR floor applied, log-log interpolated) times the sum over metallicity and age of joint weight times template flux, at every wavelength. It is linear in the template fluxes, its returned weights are the ones that were used, and one SFR floor sfr_min governs both the mass and the weights.",
  ["inputs"], "all galaxies, template blocks and SFR floors",
  "Tests check finiteness and shape of one SED; no test compares the SED with its definition.",
  ["dsps/sed/stellar_sed.py"], [("calc_rest_sed_sfh_table_*", "dsps/sed/stellar_sed.py")],
  ["dsps.calc_rest_sed_sfh_table_lognormal_mdf", "dsps.calc_rest_sed_sfh_table_met_table"])
p("C08", "A burst moves exactly its mass fraction into its age window",
  "Bursty age weights are 10**lgfburst times the burst distribution plus (1 - 10**lgfburst) times the smooth weights; the burst distribution is a triweight bump in log10(age/yr) centred on lgyr_peak that vanishes outside [2 lgyr_peak - lgyr_max, lgyr_max], normalised over the age grid. Weights stay non-negative and total one whenever a grid age lies inside the window, and ages outside it are only scaled by the smooth fraction; unbounded-parameter and bounded-parameter calls agree.",
  ["inputs"], "all burst fractions, peaks and maxima within bounds, all age grids and smooth distributions",
  "Tests check sums and a few monotonicity facts for sampled parameters on one grid.",
  ["dsps/sfh/diffburst.py"], [("calc_bursty_age_weights", "dsps/sfh/diffburst.py")],
  ["dsps.sfh.diffburst.calc_bursty_age_weights", "calc_bursty_age_weights_from_u_params"])
p("C09", "Burst parameters and their unbounded form are inverse, in-bounds, monotone",
  "Every triple of unbounded burst parameters maps to lgfburst in [-8, -1], lgyr_peak in [5, 8] and lgyr_max in [lgyr_peak + 1, 9], through sigmoids of slope 0.1 (centred on -2 for lgfburst and on the middle of the interval for the others), strictly increasing away from saturation. Mapping there and back returns the starting point in both directions, and lgyr_max is bounded by the lgyr_peak of the same call.",
  ["inputs"], "all unbounded parameters, all in-bounds parameters",
  "The tests invert ten random points with tolerance 1e-4.",
  ["dsps/sfh/diffburst.py", U], [("_get_params_from_u_params", "dsps/sfh/diffburst.py")],
  ["dsps.sfh.diffburst._get_params_from_u_params / _get_u_params_from_params"])
p("C10", "Mass-metallicity parameters and their unbounded form are inverse, in-bounds",
  "Every vector of unbounded mass-metallicity parameters maps to parameters inside the documented bounds, with the high-mass slope between 0 and the low-mass slope of the same vector, parameter by parameter through its own increasing sigmoid (slope 0.1, centred on the bound's midpoint, or on 0 for the high-mass slope). Mapping there and back returns the starting point in both directions, the defaults round-trip, and randomly drawn z=0 parameters lie inside the bounds they were asked for and depend only on the key.",
  ["inputs"], "all unbounded and all in-bounds parameter vectors, all random keys",
  "Tests round-trip a handful of random vectors.",
  ["dsps/metallicity/umzr.py"], [("get_bounded_mzr_params / get_unbounded_mzr_params", "dsps/metallicity/umzr.py")],
  ["dsps.metallicity.umzr.get_bounded_mzr_params", "get_unbounded_mzr_params", "get_ran_t0_params"])
p("C11", "The mass-metallicity relation equals its documented formula",
  "The z=0 relation is log10(0.012) plus a straight line in log mass through its pivot whose slope rolls from the low-mass to the high-mass value through a sigmoid; the evolution is the analogous rolling line in lookback time from 12.5 Gyr (pivot 8.44 Gyr, sigmoid slope 1.6, late slope y/8.44, coefficients linear in log mass), capped at zero and constant (zero up to the sigmoid's tail) for cosmic times past 12.5 Gyr; the model is their sum. The bounded-parameter and the original implementation agree wherever their parameters describe the same relation, and metallicity at fixed mass never exceeds its z=0 value.",
  ["inputs"], "all masses, cosmic times and parameters, scalar and array arguments",
  "Tests check shapes and one monotonic trend.",
  ["dsps/metallicity/mzr.py", "dsps/metallicity/umzr.py"], [("mzr_model", "dsps/metallicity/umzr.py")],
  ["dsps.metallicity.mzr.mzr_model", "dsps.metallicity.umzr.mzr_model"])
p("C12", "Magnitudes are AB magnitudes of the SED through the filter",
  "The restframe magnitude is -2.5 log10 of the photon-counting flux - the trapezoidal integral, on the filter's grid, of transmission times SED divided by wavelength - over the same integral for the constant AB source (1.13492e-13 Lsun/Hz), with the SED linearly interpolated and zero outside its wavelength range. The observed magnitude uses the SED redshifted by (1+z) and adds the distance modulus minus 2.5 log10(1+z). Hence scaling an SED by c shifts magnitudes by -2.5 log10 c, scaling the transmission changes nothing, at a flat SED of AB strength the magnitude is zero, and only wavelengths inside the filter matter. Between source and observer a magnitude dims by the distance modulus, computed or interpolated in a table, less 2.5 log10(1+z).",
  ["inputs"], "all SEDs, filters (partial and full overlap, narrow, irregular grids), redshifts and cosmologies",
  "The tests with real reference data need external files; the others compare two code paths with each other.",
  ["dsps/photometry/photometry_kernels.py"], [("calc_rest_mag, calc_obs_mag", "dsps/photometry/photometry_kernels.py")],
  ["dsps.calc_rest_mag", "dsps.calc_obs_mag"])
p("C13", "Photometry tables hold the single-SED magnitude at every index",
  "Entry [z, metallicity, age, filter] (or [metallicity, age, filter]) of each precomputed magnitude table equals the magnitude of that one template through that one filter at that one redshift as computed by the single-SED function, in that axis order. The k-corrected table is the observed magnitude without the cosmological dimming, and at redshift zero equals the restframe table.",
  ["inputs"], "all template blocks, filter sets and redshift tables, including equal axis lengths",
  "Tests compare shapes, and two tables with each other at z=0.",
  ["dsps/photometry/photpop.py"], [("precompute_ssp_obsmags_on_z_table and friends", "dsps/photometry/photpop.py")],
  ["dsps.photometry.photpop.precompute_ssp_obsmags_on_z_table", "precompute_ssp_restmags", "precompute_ssp_restmags_z_kcorrect"])
p("C14", "Distances match the flat w0waCDM integral and each other",
  "For flat cosmologies (dark energy density evolving as a^(-3(1+w0+wa)) exp(-3 wa (1-a)), no radiation) and 0 <= z <= 100 the comoving distance equals c/H0 times the integral of 1/E to a relative 1.5e-6 (1 + 3/(1+z)) z^2 + 1e-9 (the first term times w0^2/4 where w0 < -2), is zero at z=0 and increases with z. Luminosity distance is (1+z) times it, angular diameter distance is it divided by (1+z), the distance modulus is 5 log10 of the luminosity distance over 10 pc, and the array versions agree element by element with the scalar ones.",
  ["inputs"], "all flat cosmologies Om0 in (0,1], w0, wa in the usual range, h, and redshifts up to 100",
  "Tests compare with tabulated values for two cosmologies, at a few redshifts.",
  ["dsps/cosmology/flat_wcdm.py"], [("comoving_distance_to_z", "dsps/cosmology/flat_wcdm.py")],
  ["dsps.cosmology.flat_wcdm.*distance*"])
p("C15", "Cosmic ages and lookback times match the integral and add up",
  "For flat w0waCDM the age today equals the integral of da/(a H) to a relative 2e-4, for z <= 100 the lookback time equals its integral to a relative 1.5e-6 (1 + 3/(1+z)) z^2 + 1e-9 (the first term times w0^2/4 where w0 < -2), and the age at z is the age today minus the lookback time: decreasing with z, and for z <= 20 positive and within 5e-4 of today's age of the exact value. Scalars and arrays, and the package-wide TODAY (Planck15), agree with these.",
  ["inputs"], "all flat cosmologies and redshifts up to 100",
  "Tests check two cosmologies at loose tolerance.",
  ["dsps/cosmology/flat_wcdm.py", "dsps/cosmology/defaults.py"], [("age_at_z, lookback_to_z", "dsps/cosmology/flat_wcdm.py")],
  ["dsps.cosmology.flat_wcdm.age_at_z", "lookback_to_z", "age_at_z0", "dsps.cosmology.TODAY"])
p("C16", "Critical density, virial crossing time and volume follow from E(z)",
  "The critical density is 277.536627 h^2 E(z)^2 Msun/kpc^3, the virial crossing time is 2^1.5 Hubble times 1/(h E) over the square root of 18 pi^2 + 82x - 39x^2 with x = Om(z) - 1, and the differential comoving volume is c/H0 (comoving distance)^2 / E(z), for every flat w0waCDM cosmology and every redshift, scalar or array as documented.",
  ["inputs"], "all flat cosmologies and redshifts",
  "Tests compare two cosmologies with stored values.",
  ["dsps/cosmology/flat_wcdm.py"], [("rho_crit, virial_dynamical_time, differential_comoving_volume", "dsps/cosmology/flat_wcdm.py")],
  ["dsps.cosmology.flat_wcdm"])
p("C17", "Dust reddening and attenuation curves equal their published formulas",
  "The Calzetti (2000), Leitherer (2002), Noll (2009), Salim (2018) and triweight reddening curves equal their formulas at every wavelength: Leitherer at and below 0.15 micron and Calzetti above, Calzetti's branch at 0.63 micron, Drude bump added before (Noll) or after (Salim) the power law normalised at 0.55 micron, clipped at zero. Each attenuation curve is av k / 4.05 clipped at zero, and av scales it linearly.",
  ["inputs"], "all wavelengths including the branch points, bump amplitudes, positions and widths, slopes and av",
  "Tests compare with tables at fixed parameters and default bump, with loose tolerance.",
  ["dsps/dust/att_curves.py"], [("noll09_k_lambda, sbl18_k_lambda, ...", "dsps/dust/att_curves.py")],
  ["dsps.dust.att_curves"])
p("C18", "Dust transmission is a fraction that falls with dust and respects its floor",
  "The transmitted fraction is floor + (1 - floor) 10^(-0.4 A) with A = av k / 4.05 clipped at zero, for every reddening curve, av >= 0 and floor in [0, 1]. So it lies between floor and one, equals one without dust or where the curve is zero or negative, and never increases with av.",
  ["inputs"], "all reddening curves (including negative and huge values), av and floors",
  "Tests evaluate it for a few random curves against two inequalities.",
  ["dsps/dust/att_curves.py"], [("_frac_transmission_from_k_lambda", "dsps/dust/att_curves.py")],
  ["dsps.dust.att_curves._frac_transmission_from_k_lambda"])
p("C19", "The blackbody is Planck's law over the full range of frequencies",
  "The frequency and wavelength densities equal Planck's law (2 h nu^3/c^2 / (e^x - 1) and 2 h c^2/lambda^5 / (e^x - 1), x = h nu / kT, in Lsun per Hz or Angstrom) to near double precision from the Rayleigh-Jeans tail (x far below 1e-8) to the Wien tail, never negative and never NaN. They are the same energy, B_lambda dlambda = B_nu dnu, and increase with temperature. Each is highest, to a part in a thousand, at the peak frequency and the peak wavelength the module gives.",
  ["inputs"], "all positive frequencies, wavelengths and temperatures",
  "Tests compare with astropy at a few temperatures in the optical range with loose tolerance.",
  ["dsps/dust/blackbody.py"], [("blackbody_freq_density, blackbody_wave_density", "dsps/dust/blackbody.py")],
  ["dsps.dust.blackbody_freq_density", "dsps.dust.blackbody_wave_density"])
p("C20", "Equivalent widths measure the line above a quadratic continuum",
  "The continuum is the least-squares quadratic through the pixels inside the two continuum windows (edges included); the line flux is the trapezoidal integral over wavelength of flux minus continuum, counted as zero at pixels outside the line window (edges included), and the equivalent width is that flux over the continuum at the line centre. So a quadratic spectrum has zero line flux, pixels outside all windows do not matter, scaling the spectrum scales the line flux and leaves the width, and the decomposition variant returns the same numbers plus the continuum it used.",
  ["inputs"], "all spectra, window placements (including window edges on pixels) and wavelength grids",
  "Tests recover one Gaussian line within a loose tolerance.",
  ["dsps/em_lines/equivalent_width.py"], [("_ew_kernel, _continuum_line_decomp_kern", "dsps/em_lines/equivalent_width.py")],
  ["dsps.em_lines.equivalent_width._ew_kernel"])
p("C21", "Surviving and remnant mass fractions follow their IMF fits",
  "The surviving mass fraction is one minus the returned fraction, a sigmoid in log age (centre f, steepness 10^lgk2) from h to a rolling line (pivot b, steepness 10^lgk1, slopes d and e), and the remnant fraction is 10 to a rolling line (pivot and value b and a, steepness 10^lgk1, slopes d, e), for every age and every IMF parameter set. For each of the four shipped IMFs the surviving fraction lies in (0, 1] and never increases with age from one million years on, and calling without parameters means Chabrier.",
  ["inputs"], "all ages from 1e4 to 1e11 yr, all four IMFs and neighbouring parameter values",
  "Tests compare with tables at loose tolerance.",
  ["dsps/imf/surviving_mstar.py", "dsps/imf/remnant_mass.py"], [("surviving_mstar", "dsps/imf/surviving_mstar.py"), ("remnant_mass", "dsps/imf/remnant_mass.py")],
  ["dsps.imf.surviving_mstar.surviving_mstar", "dsps.imf.remnant_mass.remnant_mass"])
p("C22", "SSP templates are loaded from the file the arguments designate",
  "Loading SSP templates reads exactly one file: the given path if a path is given, else the given basename in the given directory, else that basename in the directory named by DSPS_DRN at the time of the call; with none of these it raises ValueError, and when the designated file does not exist it raises AssertionError. The contents are always those of the file as it is now, whatever was loaded, replaced, moved or set before, and dummy data is returned only when asked for.",
  ["inputs", "histories", "configurations"], "all argument combinations, all states of the environment variable and of the directories, all sequences of loads and file changes",
  "The loader tests are skipped or restricted to the environment of the machine; none interleaves loads with changes.",
  ["dsps/data_loaders/load_ssp_data.py"], [("load_ssp_templates", "dsps/data_loaders/load_ssp_data.py")],
  ["dsps.load_ssp_templates"])
p("C23", "Loaded SSP arrays are the file's arrays, lines in erg/s",
  "The loaded log-metallicities, log-ages, wavelengths and fluxes are the file's arrays verbatim, with shape and precision. If the file lists emission lines, line wavelengths are returned by name in file order and luminosities are the file's times 3.828e33; otherwise both line fields are None.",
  ["inputs"], "all well-formed SSP files, with and without lines",
  "No stable test loads a file.",
  ["dsps/data_loaders/load_ssp_data.py", "dsps/data_loaders/defaults.py"], [("load_ssp_templates", "dsps/data_loaders/load_ssp_data.py")],
  ["dsps.load_ssp_templates"])
p("C24", "Transmission curves: one matching file, physical values or an error",
  "Loading a transmission curve uses the given path, else the unique file matching the pattern in the given directory, else in the filters subdirectory of DSPS_DRN; no match, several matches, a missing directory or file raise AssertionError and an unset variable raises ValueError. A curve with any value below -0.01 or above 1.01 raises ValueError; otherwise wavelengths are returned verbatim and transmissions clipped to [0, 1].",
  ["inputs", "histories", "configurations"], "all directories and patterns (zero, one, several matches), all transmission values, all sequences of file changes",
  "The only tests need external data and load well-behaved curves.",
  ["dsps/data_loaders/load_filter_data.py"], [("load_transmission_curve", "dsps/data_loaders/load_filter_data.py")],
  ["dsps.load_transmission_curve"])
p("C25", "Emission-line tables and subsets keep name, wavelength and luminosity together",
  "Taking a subset of emission lines returns exactly the requested lines in the requested order, each with its own wavelength and its own luminosity at every metallicity and age, leaves the other arrays and the input untouched, and raises ValueError for an unknown line. Parsing the FSPS line list yields one entry per line with the wavelength of that line, brackets dropped and blanks, dots and dashes made identifier-safe.",
  ["inputs"], "all line lists, subsets and orders (including repeats of the whole list and single lines)",
  "The test takes one subset of one list.",
  ["dsps/data_loaders/load_emline_info.py"], [("get_subset_emline_data", "dsps/data_loaders/load_emline_info.py")],
  ["dsps.data_loaders.load_emline_info"])
p("C26", "SSP data retrieved from FSPS survives export and reload",
  "Retrieving from FSPS returns log10 of its metallicities, its log-ages minus 9, and one spectrum and one set of line luminosities per metallicity in order, with every keyword and the nebular switch passed to each metallicity's population. Written to disk by the export script and loaded back, all arrays are unchanged, line names and wavelengths stay paired, and line luminosities are multiplied by 3.828e33; populations without lines export and reload without lines.",
  ["inputs", "histories"], "all FSPS grids (sizes, with and without lines), keyword sets and export options",
  "FSPS is not installed, so no test executes this path.",
  ["dsps/data_loaders/retrieve_fsps_data.py", "scripts/write_fsps_data_to_disk.py", "dsps/data_loaders/load_ssp_data.py"],
  [("retrieve_ssp_data_from_fsps", "dsps/data_loaders/retrieve_fsps_data.py")],
  ["dsps.data_loaders.retrieve_ssp_data_from_fsps", "scripts/write_fsps_data_to_disk.py"])
p("C27", "Calls are pure: no history, thread or argument aliasing changes a result",
  "Any call's result depends only on the values of its arguments: repeating it after any sequence of other calls (other shapes, other arguments, failures) in any order, or from several threads at once, gives the same result. No call modifies the arrays or parameter tables passed to it or the package's default parameters, or what the process is set to (random generators, unless random values are what was asked for; error handling and printing of numpy, jax's settings, environment, working folder), and changing an argument array after the call does not change a result already returned, nor does overwriting a returned array change what any later call returns.",
  ["histories", "schedules", "inputs"], "all interleavings of calls of the public functions, with any arguments",
  "Tests run each function once in a fresh order; they cannot see hidden state.",
  ["dsps"], [("pure jitted kernels; module constants never mutated", "dsps")],
  ["every public function"])
p("C28", "Results are double precision whichever module is imported first",
  "Importing any public module of the package, in any order, enables double precision for the functions that promise it: after importing the sed package (directly or through dsps) every numerical function returns float64 and matches its value computed in any other import order. The package imports, and its documented names are available, whichever submodule comes first.",
  ["configurations", "histories"], "all first-import choices and orders",
  "Tests run in one process where everything is already imported.",
  ["dsps/__init__.py", "dsps/sed/__init__.py", "dsps/cosmology/defaults.py"], [("jax_enable_x64 at import", "dsps/sed/__init__.py")],
  ["dsps", "dsps.sed", "dsps.cosmology", "dsps.photometry", "dsps.dust"])
p("C29", "Gradients are finite and are the derivatives of the specified functions",
  "At every interior point the automatic derivative of formed mass, age weights, SED, magnitudes, burst weights, bounded and unbounded parameters, mass-metallicity relation, dust transmission, distances and halo properties, line strengths, blackbody and surviving mass, with respect to the galaxy, dust or cosmology parameters, is finite and equals the derivative of the quantity that C01-C21 define. This includes galaxies with zero SFR, no dust, no burst and clipped metallicities.",
  ["inputs"], "all differentiable parameters at interior points, including the degenerate galaxies",
  "No test differentiates anything.",
  ["dsps"], [("jnp.where-guarded kernels", "dsps/utils.py")], ["jax.grad / jax.jacobian of the public functions"])
p("C30", "jit, vmap and plain calls agree; leading axes are only batches",
  "Each public kernel gives the same result called directly, under an outer jit, with jit disabled, and with numpy or jax arrays or python floats, or whole numbers given as (python or 64-bit numpy) integers; mapping it over a batch of inputs with vmap gives, for each element, the result of the single call. The shipped mapped variants (array cosmology functions, photometry tables) are such batches.",
  ["inputs", "configurations"], "all public kernels and batch sizes, all transformation choices",
  "Tests call each function in one way.",
  ["dsps"], [("jax.jit / vmap wrappers", "dsps/photometry/photpop.py")], ["every public kernel"])
p("C31", "Numerical building blocks equal their mathematical definitions",
  "The triweight kernel, its cumulative function, histogram and sigmoid, the logistic sigmoid and its inverse, the sigmoid-slope line, bin edges and widths, trapezoidal and cumulative trapezoidal integrals, weight products and the power-law density equal their formulas for all arguments; power-law draws lie in [a, b] and are the inverse cumulative function of uniform draws. Histogram columns are the kernel mass between bin edges and sum to the mass on the grid. Tables for integrating a history run evenly from the first births to the given age with their logarithms and durations.",
  ["inputs"], "all arguments including kernel support boundaries, single elements and irregular grids",
  "Tests sample a few points and mostly check shapes.",
  [U], [("utils", U)], ["dsps.utils"])
p("C32", "Filter utilities keep each filter's own range, shape and effective wavelength",
  "Interpolating filters to a common length returns, for each filter in order, n equally spaced wavelengths from its own first to its own last wavelength with the transmission linearly interpolated from its own curve; n defaults to the shortest curve. The effective wavelength is the transmission-weighted mean wavelength divided by (1+z), and a random transmission curve is a Gaussian of the asked centre and width with peak one on the asked range, fixed by its key.",
  ["inputs"], "all filter collections, lengths, redshifts, keys and centres",
  "Tests check shapes and one effective wavelength.",
  ["dsps/photometry/utils.py", "dsps/dust/utils.py", "dsps/data_loaders/load_filter_data.py"],
  [("interpolate_filter_trans_curves", "dsps/photometry/utils.py"), ("get_filter_effective_wavelength", "dsps/dust/utils.py")],
  ["dsps.photometry.utils", "dsps.dust.utils", "dsps.load_transmission_curve"])
p("C33", "Synthetic SSP data obeys the contract of real SSP data",
  "For every number of lines the synthetic data set has the increasing log-metallicity (22 MIST values), log-age (every 0.05 dex from -3.5) and wavelength (1963 values from 100 to 20000 Angstroms) grids, positive finite fluxes that are the tabulated power law of each (metallicity, age), n distinct line names with increasing wavelengths and finite positive luminosities of shape (n_met, n_age, n_line), and no line fields when n is zero. Line wavelengths are equally spaced in log from 1e3 to 1e6 Angstroms. The six synthetic filters u, g, r, i, z, y are Gaussians of log10 wavelength centred at 3.57, 3.68, 3.79, 3.875, 3.935 and 3.985 on the template wavelengths, and lie in [0, 1].",
  ["inputs", "histories"], "all numbers of lines, repeated generation",
  "Tests check shapes for one or two sizes.",
  ["dsps/data_loaders/retrieve_fake_fsps_data.py"], [("load_fake_ssp_data", "dsps/data_loaders/retrieve_fake_fsps_data.py")],
  ["dsps.data_loaders.retrieve_fake_fsps_data.load_fake_ssp_data", "dsps.load_ssp_templates(dummy=True)"])
p("C34", "Photometry of a galaxy is the weighted sum of its templates' photometry",
  "The flux of a composite SED through any filter (10 to the -0.4 times its magnitude, restframe or observed) equals the formed mass times the weighted sum of the fluxes of the precomputed template table with the same joint weights. Applying a dust transmission to templates or to the composite gives the same spectrum.",
  ["inputs"], "all galaxies, template blocks, filters, redshifts and dust curves",
  "No test composes the components.",
  ["dsps/sed/stellar_sed.py", "dsps/photometry/photpop.py", "dsps/photometry/photometry_kernels.py", "dsps/dust/att_curves.py"],
  [("linearity of the SED and of the filter integral", "dsps/photometry/photometry_kernels.py")],
  ["dsps.calc_rest_sed_* with dsps.calc_*_mag and photpop.precompute_*"])
p("C35", "The diagnostic chart shows the models its legend names",
  "In the chart of the mass-metallicity relation the curves drawn in the style that the legend labels label1 are the relation with the first parameters, and those in the style labelled label2 the relation with the second (default: the default parameters), each at 2, 5, 8, 11 and 14 Gyr and across the whole range shown, one color per time; the z=3 and z=0 legend colors are those of the earliest and latest curves. The measured points are published ones shifted by log10 of the solar metallicity, in the marker and color of their legend entry. The figure is returned, saved under fname if one is given and nowhere otherwise, and drawing it changes no figure drawn before.",
  ["inputs", "histories"], "all parameter pairs, labels and file names, any number of charts in one session",
  "The test draws one chart and checks nothing in it.",
  ["dsps/metallicity/diagnostics/plot_mzr.py"], [("make_mzr_comparison_plot", "dsps/metallicity/diagnostics/plot_mzr.py")],
  ["dsps.metallicity.diagnostics.plot_mzr.make_mzr_comparison_plot"])
p("C36", "Shipped calibrations are the documented ones and describe one world",
  "Every physical constant, cosmology, published fit and table of default parameters or bounds that the package ships has its documented value, entry names and order, whatever was read or called before; constants that several modules carry agree (speed of light, solar luminosity, 3631 Jy at 10 pc, critical density), defaults lie strictly inside their bounds, both mass-metallicity modules are calibrated alike, and a function called without its calibration arguments uses the documented (Chabrier) calibration. The records returned by calls keep their documented entries in order.",
  ["configurations", "histories"], "all shipped constants and tables, read in any order, and all omitted optional calibrations",
  "Tests use the shipped values as inputs and outputs alike, so a changed digit stays invisible.",
  ["dsps/constants.py", "dsps/cosmology/flat_wcdm.py", "dsps/metallicity/umzr.py", "dsps/metallicity/mzr.py", "dsps/imf/surviving_mstar.py", "dsps/imf/remnant_mass.py", "dsps/sfh/diffburst.py", "dsps/dust/att_curves.py", "dsps/dust/blackbody.py", "dsps/data_loaders/defaults.py"],
  [("module constants and default tables", "dsps")], ["dsps module attributes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for q in P:
        fh.write(json.dumps(q) + "\n")
print(len(P))
