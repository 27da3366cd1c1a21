#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
S = "src/naima/"
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],
            mechanism=[dict(name=n, where=S+w) for n, w in mechanism],
            state=[dict(name=n, meaning=m, where=S+w) for n, m, w in (state or [])],
            observe_at=observe, hook_needed=hook)))

prop("C01", "Result caching is invisible over every history of calls and changes",
 "Whatever sequence of evaluations, parameter changes and particle-distribution changes a model object has gone through, and whatever other model objects did in between, each spectrum it returns equals the one a newly built, never-used model object with the same current settings returns. This holds for every radiative model and every functional model, with result caching on or off.",
 ["histories","inputs"], "All sequences, up to a stated length, of flux/SED evaluations (several energy grids, distances, seed selections) interleaved with changes of every settable parameter, in-place changes and replacement of the particle distribution or the target fields, on one or two model objects.",
 "The existing tests evaluate each model once or twice on a fresh object and compare with stored numbers; staleness needs a specific earlier call that the later one collides with.",
 ["model_utils.py","radiative.py","models.py"], [("result cache keyed on energies, distance and parameters","model_utils.py:memoize"),("parameter lists that enter the key","radiative.py:param_names"),("lookup table selection","radiative.py:PionDecay._spectrum")],
 ["return value of flux()/sed()/model call"], [("result cache and its eviction queue","last computed spectra","model_utils.py")])
prop("C02", "Caller objects are never modified and results are never shared",
 "Computing a spectrum, normalising a distribution, validating data, fitting, plotting or saving never changes an array, Quantity, list, dictionary or table the caller passed in. Modifying an object that was returned by a call never changes what any later call returns.",
 ["histories","inputs"], "Every public entry point of the alphabet, with every mutable argument snapshotted before and compared after, followed by in-place corruption of every returned array and re-evaluation.",
 "Tests discard their inputs and never write into returned arrays, so aliasing between cache, caller and result is invisible to them.",
 ["model_utils.py","radiative.py","models.py","core.py","utils.py","plot.py","analysis.py"], [("cached value handed out","model_utils.py:memoize"),("renormalisation","radiative.py:set_We, set_Wp"),("start vector and labels","core.py:get_sampler")],
 ["arguments after the call","results of repeated calls"])
prop("C03", "Inverse Compton emission is the sum of its seed photon fields",
 "At any point of any call history, the contribution reported for one seed photon field (selected by name or by position) equals the emission of a model having only that field, and the contributions of all fields add up to the total. The contribution is for the energies, distance and settings of that very call, and asking for a field that is not defined raises ValueError.",
 ["histories","inputs"], "All sequences up to a stated length of total and per-seed flux/SED calls over several energy grids and distances, interleaved with parameter changes, for all non-empty combinations of thermal isotropic, thermal anisotropic, monochromatic and tabulated fields.",
 "Tests request a seed contribution right after the matching total was computed; the stale case needs an interleaved call.",
 ["radiative.py"], [("per-seed spectra","radiative.py:InverseCompton.flux"),("seed sum","radiative.py:InverseCompton._spectrum")],
 ["flux(seed=...), sed(seed=...)"], [("per-seed spectra of the last evaluation","what a seed request reads","radiative.py:specic")])
prop("C04", "Flux, SED, distance, units and array shape describe one spectrum",
 "For every radiative model the SED is energy squared times the flux, the flux scales with the inverse square of the distance, and distance zero gives the intrinsic luminosity. The value at a given photon energy does not depend on the unit it is expressed in, on the container (Quantity array, table, dictionary, scalar), on the other energies in the same request or on their order.",
 ["inputs"], "Every radiative model x every container kind x every energy unit of the alphabet x every sub-multiset/permutation of a small grid x every distance incl. zero, positional or by keyword.",
 "Tests use one sorted energy array in one unit and one distance per model.",
 ["radiative.py","model_utils.py"], [("flux and sed","radiative.py:BaseRadiative"),("energy input","radiative.py:_validate_ene")],
 ["flux(), sed()"])
prop("C05", "Spectra are linear in particles and targets, non-negative and bounded",
 "Multiplying the particle amplitude, the target density or a seed energy density by a factor multiplies the corresponding emission by that factor, and the emission of a sum of particle distributions is the sum of the emissions. Every spectrum is finite and non-negative, and no Inverse Compton, bremsstrahlung or pion-decay photon carries more energy than the most energetic particle.",
 ["inputs"], "Every radiative model x particle distribution x scale factor over 20+ decades of photon energy around and beyond the kinematic limits.",
 "Tests evaluate a few energies inside the well-behaved range; limits, overflow ranges and additivity are not exercised.",
 ["radiative.py","utils.py"], [("emissivity integrals","radiative.py:_spectrum"),("kinematic masks","radiative.py:_iso_ic_on_planck, _sigma_1, _diffsigma")],
 ["flux()"])
prop("C06", "Particle energy content is conserved by normalisation",
 "After normalising a particle population to a given total energy between two limits, the computed energy content between those limits equals that value, the spectrum scales by the same ratio, the shape of the distribution is unchanged, and no other model or value the user holds is affected. Energy content computed for given limits equals the integral of energy times the distribution over them and adds up over adjacent ranges.",
 ["histories","inputs"], "All sequences of normalise/compute/evaluate operations up to a stated depth over several limits, distributions (amplitude attribute, custom amplitude name) and models sharing a distribution or an amplitude.",
 "Tests normalise once per model with one limit pair.",
 ["radiative.py","utils.py"], [("set_We/compute_We","radiative.py:BaseElectron"),("set_Wp/compute_Wp","radiative.py:BaseProton")],
 ["We, Wp, compute_*, particle_distribution.amplitude, flux()"])
prop("C07", "Log-log integration is exact for piecewise power laws",
 "The log-log integral of any piecewise power law sampled at its break points equals the analytic integral, including index -1, and an interval touching a zero value or of zero width contributes nothing. The result is additive over adjacent ranges, independent of the array axis used and of units, linear in the integrand, and per-interval results add up to the total.",
 ["inputs"], "All integrand vectors over a small alphabet of values (zeros, exact -1 slopes, steep and flat slopes) on all grids of up to five nodes, on every axis of 1-, 2- and 3-dimensional arrays, with and without units.",
 "Tests integrate a handful of smooth functions along one axis.",
 ["utils.py"], [("trapz_loglog","utils.py:trapz_loglog")], ["return value"])
prop("C08", "Synchrotron and Inverse Compton follow the published formulas",
 "The synchrotron spectrum equals the published random-field approximation integrated over the electrons, and the Inverse Compton spectrum on thermal (isotropic or from a direction), monochromatic and tabulated photon fields equals the published cross-section approximations integrated over electrons and seed photons, for every admissible combination of settings. Emission grows or falls with field, temperature and angle as those formulas say.",
 ["inputs","configurations"], "Grid of magnetic field, electron limits and sampling, temperature, energy density, angle, seed energies x photon energies over 15+ decades, each compared with an independent implementation.",
 "Tests compare one configuration each with stored integrated luminosities at loose tolerance.",
 ["radiative.py"], [("synchrotron kernel","radiative.py:Synchrotron._spectrum"),("IC kernels","radiative.py:_iso_ic_on_planck, _ani_ic_on_planck, _iso_ic_on_monochromatic"),("Lorentz factor grid","radiative.py:_gam")],
 ["flux()"])
prop("C09", "Bremsstrahlung and pion-decay follow the published formulas",
 "The bremsstrahlung spectrum is the weighted sum of the published electron-electron and electron-ion cross sections (including either contribution alone), and pion-decay spectra equal the published proton-proton parametrisation for each supported high-energy model, with and without nuclear enhancement. Using the tabulated cross section instead of the direct calculation changes the result by at most the table accuracy.",
 ["inputs","configurations","histories"], "All combinations of weights, densities, high-energy model, nuclear enhancement, table on/off and all orders of switching them up to a stated depth, x photon energies from 10 MeV to beyond the maximum proton energy.",
 "Tests check integrated luminosities of one or two configurations.",
 ["radiative.py"], [("Bremsstrahlung cross sections","radiative.py:Bremsstrahlung"),("pion decay parametrisation and table","radiative.py:PionDecay, LookupTable"),("older parametrisation","radiative.py:PionDecayKelner06")],
 ["flux()"], [("selected differential cross section","direct or table","radiative.py:PionDecay.diffsigma")])
prop("C10", "Functional and tabulated particle models equal their closed forms",
 "Every functional model equals its documented formula at every energy (including exactly at the break and far outside the fitted range), for scalar or array energies in any energy unit and after any sequence of parameter changes, and broken models are continuous at the break. A tabulated model reproduces its table at the nodes, interpolates between them, is zero outside the tabulated range and scales with its amplitude.",
 ["inputs","histories"], "All parameter assignments of a small alphabet reached through all orders of attribute changes, x energies at, next to and decades away from every characteristic energy, x units and containers.",
 "Tests check a few parameter sets at one energy array.",
 ["models.py"], [("model formulas","models.py:PowerLaw, BrokenPowerLaw, ExponentialCutoffPowerLaw, ExponentialCutoffBrokenPowerLaw, LogParabola"),("interpolation","models.py:TableModel")],
 ["model(energy)"])
prop("C11", "EBL transmission is a proper absorption factor",
 "The extragalactic-background transmission lies between zero and one, is one at negligible redshift and below the absorption range, follows the tabulated opacity of the closest tabulated redshift, does not increase with redshift at fixed energy and is not larger beyond the tabulated energies than at their upper end. It is the same for an energy alone or in an array, in any unit.",
 ["inputs"], "Every tabulated redshift plus midpoints and zero x every tabulated energy, energies outside the table, units and containers.",
 "Tests compare a few stored values at a few redshifts.",
 ["models.py"], [("opacity table selection","models.py:EblAbsorptionModel.__init__"),("transmission","models.py:EblAbsorptionModel.transmission")],
 ["transmission()"])
prop("C12", "Equivalent seed photon field descriptions give equal emission",
 "All documented ways of describing the same set of seed photon fields (single name, list, dash-joined names, explicit temperature and density, density zero meaning black body, number or energy density of tabulated photons, any units) give the same Inverse Compton emission, whatever the order of the fields. Ill-typed descriptions are rejected with an error when the model is built.",
 ["inputs"], "All pairs of equivalent descriptions and all permutations for field sets up to three; every single-element corruption of a valid description.",
 "Tests cover one spelling of most fields.",
 ["radiative.py","extern/validator.py"], [("seed normalisation","radiative.py:InverseCompton._process_input_seed")],
 ["flux() of the built model, exception at construction"])
prop("C13", "Validated data equal the input table under every accepted column format",
 "For every combination of accepted column formats the validated data hold the same physical energies, fluxes, flux errors, bin edges, upper-limit flags and confidence level as the input table describes, in energy order. When several tables are given, every row of every table appears exactly once, tagged with its table, converted to the spectrum type asked for (or that of the first table) with the same physical value.",
 ["inputs","configurations"], "All combinations of energy-bin format x flux-error format x upper-limit format x limit column x confidence level x units x row order x table class, singly and in lists of up to three tables, for the three target formats.",
 "Tests load a few sample files; most format pairs, unsorted rows and mixed lists never occur.",
 ["utils.py","extern/validator.py"], [("single table validation","utils.py:_validate_single_data_table"),("concatenation, conversion, sorting","utils.py:validate_data_table")],
 ["returned table"])
prop("C14", "Validation is idempotent and independent of row and table order",
 "Validating an already validated table changes nothing, including the confidence level and table tags, also after a save and read of a run. Permuting the rows of a table permutes nothing but the order of ties in the result, splitting or reordering tables changes only their tags, and a model is judged identically on all of them.",
 ["inputs","histories"], "All permutations of rows of small tables in each format, all orders of up to three tables, repeated validation up to three times and through save/read.",
 "No test validates unsorted tables or validates twice and compares.",
 ["utils.py"], [("validation","utils.py:validate_data_table"),("bin edge generation","utils.py:generate_energy_edges")],
 ["returned table, likelihood of a fixed model"])
prop("C15", "Unusable input is rejected with an error instead of producing numbers",
 "Data tables lacking a required column or carrying columns or units of the wrong physical type, tables mixing flux and luminosity, ill-typed upper-limit flags, models whose output cannot be compared with the data, and model parameters with wrong physical type (or a negative value of a quantity documented as positive) are rejected with an error, which is a TypeError, ValueError or units error where naima validates them. Rejection leaves the objects involved usable and unchanged.",
 ["inputs"], "Every single corruption (drop a column, wrong unit, wrong type, wrong sign) of every valid table and constructor call of the alphabet, and all pairs of table unit types.",
 "Tests cover about a dozen individual corruptions.",
 ["extern/validator.py","utils.py","core.py","models.py","radiative.py"], [("validators","extern/validator.py"),("table checks","utils.py"),("unit compatibility","core.py:get_sampler")],
 ["exception type"])
prop("C16", "Differential and SED representations convert without loss",
 "Converting a spectrum between differential and SED form multiplies by energy squared and nothing else, preserves whether it is a flux, a luminosity or a particle spectrum, and converting back restores the original. Spectra of unsupported physical type raise a units error.",
 ["inputs"], "Every supported unit spelling x both target forms x scalar/array energies in every energy unit, all two-step conversions, and every unit of a list of unsupported ones.",
 "Tests convert a few units one way.",
 ["utils.py"], [("sed_conversion","utils.py:sed_conversion")], ["returned unit and factor"])
prop("C17", "The log-likelihood is the documented statistic",
 "The log-likelihood of a model is minus one half of the squared residuals in units of the error on the side of the deviation, plus, for each upper limit the model exceeds, the logarithm of one minus that limit's own confidence level. It is the same for data and model given as spectrum or SED or in other units, for any order of the points, and for any grouping of the points into tables; points flagged as limits never contribute residuals.",
 ["inputs"], "All assignments of {below, equal, above} x {measurement, upper limit} x confidence level to up to five data points, x asymmetric errors x data/model representation and unit x permutations.",
 "Tests only check that a fit runs; no test computes an expected likelihood with violated limits.",
 ["core.py"], [("lnprobmodel","core.py:lnprobmodel"),("lnprob","core.py:lnprob")],
 ["returned log-probability"])
prop("C18", "Priors are the logarithm of the density they name",
 "Differences of the log-prior between two parameter values equal the difference of the log-density of the named distribution (uniform, normal with given mean and standard deviation, log-uniform), boundaries included, and values outside the support give minus infinity. A prior of minus infinity makes the posterior minus infinity, otherwise prior and likelihood add.",
 ["inputs"], "All values x parameters of an alphabet containing boundaries, zero, negative and extreme values, including one-sided and absent bounds; all combinations of prior and likelihood values.",
 "Tests only use priors inside a fit and do not check their values.",
 ["core.py"], [("priors","core.py:uniform_prior, normal_prior, log_uniform_prior"),("combination","core.py:lnprob")],
 ["returned value"])
prop("C19", "Every stored sample is truthful under every random outcome",
 "For every outcome of the random draws, each stored walker position comes with exactly the posterior value and model outputs of that position, no stored move has zero prior probability, the number of stored samples matches what was asked for, and the recorded run information, labels and data describe the run. Continuing a run starts from where it ended.",
 ["schedules","histories"], "All outcomes of the ensemble draws (partner choice, stretch, accept/reject) for small ensembles over one to a few steps, with bounded departures from a default outcome for longer runs, with and without burn-in, scalar, array and structured model outputs.",
 "Tests run one random seed and check shapes.",
 ["core.py"], [("lnprob and blobs","core.py:lnprob"),("run loop","core.py:_run_mcmc, run_sampler, get_sampler")],
 ["sampler chain, log-probabilities, blobs, run_info, labels, returned positions"], None, None)
prop("C20", "Parallel runs equal serial runs whatever the workers do",
 "With any number of worker processes, any assignment of walkers to workers and any completion order, the chain, probabilities and model outputs equal those of the serial run with the same random draws. The worker pool is released when the run ends, and a failing model evaluation surfaces as an error rather than as a wrong chain.",
 ["schedules","fault_sequences"], "All assignments of evaluations to workers and all completion orders for small ensembles, and a failure injected at every evaluation, with models that cache results.",
 "Tests run with one process or an uncontrolled pool.",
 ["core.py","model_utils.py"], [("pool use","core.py:get_sampler, run_sampler")],
 ["chain, log-probabilities, blobs, pool state"])
prop("C21", "Runs start where the user, the guess or the prefit says",
 "Walkers start around the given parameter vector, except that with the normalisation guess exactly one recognised normalisation parameter is rescaled (or shifted, if it is a logarithm) so that model and data have equal energy flux, and with prefit the start is a point at least as likely as the given one and allowed by the prior, with everything the user passed left unchanged. The width of the starting ball reflects whether a maximum-likelihood start was found.",
 ["inputs","configurations"], "All combinations of label sets (normalisation name variants, logarithms, several or none), start vector types, guess/prefit switches, priors allowing or forbidding the optimum, data forms.",
 "Tests use two or three label sets and never inspect the resulting start vector.",
 ["core.py","extern/minimize.py"], [("guess, prefit, ball","core.py:get_sampler, _prefit"),("Nelder-Mead","extern/minimize.py")],
 ["returned position, run_info, arguments after the call"])
prop("C22", "A saved run reads back as the same run",
 "Reading a saved run gives back the chain, log-probabilities, every model output with its values and units, labels, run information and data table of the sampler that was saved, for every supported structure of model outputs, so that results computed from it equal those from the original. Saving never alters an existing file unless overwriting was requested, and never alters the sampler.",
 ["inputs","histories","fault_sequences"], "All sequences of up to three model-output kinds (arrays, quantities, scalars, pairs and triples of arrays) x equal or different lengths x steps/walkers, all sequences of save (overwrite or not) and read operations, and write failures at every storage operation.",
 "Tests save one sampler with one output structure.",
 ["analysis.py"], [("save_run","analysis.py:save_run"),("read_run","analysis.py:read_run")],
 ["attributes of the object returned by read_run; file bytes"])
prop("C23", "The results table summarises exactly the stored samples",
 "Each row of the results table gives the median and the distances to the 16th and 84th percentiles of the samples of that parameter or scalar model output (of the final step only when so requested, of the whole run otherwise), with logarithmic parameters additionally reported in linear form. The best-fit vector, its log-likelihood and the information criterion in the table are those of the best stored sample, and the written file holds the same table.",
 ["inputs","configurations"], "All combinations of label forms, output structures, chain shapes, last-step and conversion switches, file formats over small chains with distinct values in every cell.",
 "Tests check that a file is written.",
 ["analysis.py","plot.py"], [("save_results_table","analysis.py:save_results_table"),("find_ML","plot.py:find_ML")],
 ["returned table, file content"])
prop("C24", "Best fit and confidence bands come from the stored samples",
 "The best-fit parameters and model reported are those of a stored sample of highest log-probability. Confidence bands at each energy lie at the corresponding quantiles of the stored models, are ordered lower to upper, a higher confidence level encloses a lower one, and bands recomputed by calling the model at chosen samples agree with those of the stored outputs.",
 ["inputs","configurations"], "All placements of the maximum (ties, first/last step and walker) in small chains, all requested confidence levels, last-step switch, stored or recomputed models.",
 "Tests draw the plots and check that nothing raises.",
 ["plot.py"], [("find_ML","plot.py:find_ML"),("confidence interval","plot.py:_calc_CI, calc_CI")],
 ["returned values, drawn bands"])
prop("C25", "Plots show the data and model values they are given",
 "Every measured point, upper limit and model curve drawn corresponds to a row of the data or a model value, converted to the requested energy unit and spectrum type, with residuals in units of the uncertainty of the point (the mean of its lower and upper errors). What one plot call draws does not depend on earlier plot calls, and plot settings and global plotting configuration are left as they were.",
 ["histories","inputs","configurations"], "All combinations of spectrum/SED, energy unit, groups, upper limits and option dictionaries, and all sequences of two or three plot calls.",
 "Tests draw once per option and never read back what was drawn.",
 ["plot.py","analysis.py"], [("data drawing","plot.py:plot_data, _plot_data_to_ax"),("residuals","plot.py:_plot_residuals_to_ax"),("fit drawing","plot.py:plot_fit, plot_CI")],
 ["drawn artists"])
prop("C26", "The interactive fitter always shows the parameters it holds",
 "After any sequence of user actions (moving sliders, update, automatic-update toggles, fitting, closing) the plotted curve, the displayed likelihood and the returned parameters all describe the same parameter vector, the one shown by the sliders as of the last refresh. The claim that the parameters are a maximum-likelihood solution is made only while they are the unmodified result of a successful fit.",
 ["histories"], "All sequences of user actions up to a stated depth from all start configurations (with or without data, spectrum or SED, automatic update on or off).",
 "Tests press each button once.",
 ["model_fitter.py","core.py"], [("event handlers","model_fitter.py:InteractiveModelFitter")],
 ["pars, slider values, curve data, likelihood text, P0_IS_ML"], [("pars, P0_IS_ML","current vector and whether it is a fit result","model_fitter.py")])
prop("C27", "Sherpa models equal the native models they wrap",
 "Each Sherpa model evaluated with any parameter vector, at points or integrated over bins, in any admissible call order, with Sherpa caching on or off, equals the corresponding native spectrum at the configured distance: energy times differential flux at points, photons in the bin (power law between its own two edges) over bins, whether or not bins are consecutive. Guessing the normalisation makes the model match the data normalisation without touching other parameters.",
 ["histories","inputs"], "All sequences of parameter changes and evaluations up to a stated depth for each wrapper, point and bin grids.",
 "Tests evaluate each wrapper once at default parameters.",
 ["sherpa_models.py"], [("wrappers","sherpa_models.py:SherpaModelECPL and subclasses")],
 ["model(x), model(xlo, xhi)"])
prop("C28", "Convenience tools compute what they document",
 "Generated bin edges are positive, join neighbouring bins of a group at their geometric mean and ignore other groups; a table built from arrays validates to exactly those arrays; and the magnetic field estimate equals the one implied by the luminosity ratio and scales with the square root of the X-ray flux and photon density. None of this depends on units or on row order.",
 ["inputs"], "All groupings and orders of small energy arrays, all argument combinations for building a table, and grids of fluxes, units and densities for the field estimate.",
 "Tests check one array and one table.",
 ["utils.py"], [("edges","utils.py:generate_energy_edges"),("table builder","utils.py:build_data_table"),("field estimate","utils.py:estimate_B")],
 ["returned values"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
