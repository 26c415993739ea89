import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],state=state or [],hook_needed=None)))

p("C01","Detected objects are exactly those passing every attached selection",
"In a drawn survey an object is marked detected if and only if it passes every selection attached to the survey (flux, spatial, and the selection on each auxiliary sampler at any nesting depth), each evaluated on that object's own observed flux, position, observed or true auxiliary value, distance or luminosity. Detected and hidden objects partition the survey, every selected/hidden view and count of the population agrees element by element with that mask, and no per-object array is reordered or filtered by selection. The distance selection applies only to detected objects and splits them into known-distance and unknown-distance objects whose indices and distances refer to the right detected objects.",
["inputs","configurations"],"all combinations of flux, distance, spatial and auxiliary selections (lower, upper, box, soft, Bernoulli, galactic plane, unity), boundary placements, survey sizes incl. 0 and 1",
"Tests draw a few fixed configurations and mostly check that nothing raises; none recomputes which object should be selected.",
["popsynth/population_synth.py","popsynth/population.py","popsynth/selection_probability/selection_probability.py","popsynth/selection_probability/generic_selectors.py","popsynth/selection_probability/flux_selectors.py","popsynth/selection_probability/spatial_selection.py"],
[("draw_survey accumulates global selection","popsynth/population_synth.py draw_survey"),("selection algebra","popsynth/selection_probability/selection_probability.py __add__"),("selected/hidden views","popsynth/population.py __init__")],
["Population.selection/n_detections/n_non_detections/known_distances/known_distance_idx/unknown_distance_idx/selected_*/hidden_*"])

p("C02","A survey is a reproducible function of seed and configuration",
"Two surveys drawn from equal configurations with the same seed are identical in every per-object quantity, selection and recorded parameter, whatever the state of the global random generator, the process they run in, compilation of the numerical kernels being on or off, and the verbosity and progress-bar settings. Different seeds give different surveys.",
["configurations","histories"],"all buildable configurations, seeds, prior global random states, progress/logging settings, processes, JIT on/off",
"Tests draw with the progress bar in one state, JIT off in CI and never compare two draws.",
["popsynth/population_synth.py","popsynth/distribution.py","popsynth/utils/rejection_sample.py","popsynth/aux_samplers/plaw_aux_sampler.py","popsynth/distributions/bpl_distribution.py"],
[("seed set before sampling","popsynth/population_synth.py draw_survey"),("sampling loop with and without progress bar","popsynth/distribution.py draw_distance"),("njit samplers","popsynth/aux_samplers/plaw_aux_sampler.py")],
["Population arrays","PopulationSynth.draw_survey"])

p("C03","Survey size is Poisson with the integrated rate as its mean",
"Without a requested size, the number of objects in a survey is Poisson distributed with mean equal to the integral over distance, from zero to the maximum distance, of rate density times differential volume (per steradian for cosmological populations) divided by the time adjustment. When normalization is requested the mean is instead the value of the distribution's normalization parameter itself (one if it has none), whether set or left at its default, and every parameter keeps its value afterwards. A requested number of samples is honoured exactly.",
["inputs","configurations"],"all spatial distributions and parameter values with finite rate, r_max, seeds, normalize on/off, n_samples",
"Tests never check the number of objects against the integral; a factor (time dilation, 4 pi, 1+z) can be lost unnoticed.",
["popsynth/population_synth.py","popsynth/distribution.py","popsynth/distributions/cosmological_distribution.py","popsynth/distributions/spherical_distribution.py","popsynth/distributions/flatland_distribution.py"],
[("volume integral and Poisson draw","popsynth/population_synth.py draw_survey"),("differential_volume, dNdV, time_adjustment","popsynth/distributions/*_distribution.py")],
["Population.n_objects"])

p("C04","Distances and sky positions follow the spatial distribution",
"Object distances are independent draws from the density proportional to rate density times differential volume over time adjustment on [0, r_max], never outside it, however the maximum distance, parameters, normalization or progress settings are chosen. Sky positions are isotropic on the sphere for spherical and cosmological populations, and the reported right ascension, declination, polar and azimuthal angles of an object are consistent with each other. A spiral-galaxy population lies near the galactic mid-plane with the documented scale height and along its four documented arms.",
["inputs","configurations"],"all built-in and user-defined spatial distributions, parameters, r_max, n, seeds",
"Tests only check that drawing does not raise; distributional errors need a reference law over many parameter values.",
["popsynth/distribution.py","popsynth/utils/rejection_sample.py","popsynth/utils/spherical_geometry.py","popsynth/distributions/cosmological_distribution.py","popsynth/distributions/spherical_distribution.py","popsynth/distributions/spiral_galaxy_distribution.py","popsynth/distributions/flatland_distribution.py"],
[("rejection sampling","popsynth/utils/rejection_sample.py"),("draw_distance/draw_sky_positions","popsynth/distribution.py"),("spiral arms","popsynth/distributions/spiral_galaxy_distribution.py")],
["Population.distances/theta/phi/ra/dec"])

p("C05","Luminosities follow the stated normalised luminosity function",
"Luminosities drawn from each luminosity distribution lie in its support and follow the probability density that the distribution itself reports, which is non-negative, zero outside the support, and integrates to one. The reported density is evaluated element by element for positive scalars and integer or float arrays, for all valid parameter values. A survey records for each object the product of this density, the spatial density of its distance at unit normalization (divided by its integral when normalization is requested) and the density reported by any auxiliary sampler with a selection.",
["inputs"],"all luminosity distributions, parameters in their bounds (indices incl. -1 and -2), sample sizes, evaluation points incl. boundaries, scalars, int arrays",
"Tests evaluate single parameter points and never compare draws to the density.",
["popsynth/distributions/pareto_distribution.py","popsynth/distributions/bpl_distribution.py","popsynth/distributions/schechter_distribution.py","popsynth/distributions/log10_normal_distribution.py","popsynth/distributions/log_normal_distribution.py","popsynth/distributions/uniform_distribution.py","popsynth/distributions/delta_distribution.py","popsynth/distribution.py"],
[("phi and draw_luminosity of each class","popsynth/distributions/*.py"),("compute_probability","popsynth/distribution.py")],
["LuminosityDistribution.phi/draw_luminosity","Population.luminosities_latent/probability"])

p("C06","Fluxes follow the inverse square law and stated measurement scatter",
"The latent flux of every object is its luminosity over 4 pi times its squared distance: the luminosity distance in cm of its redshift in cosmological populations, one plus its distance in flat spherical populations; in one-dimensional flatland it is the luminosity itself. Observed fluxes equal latent fluxes when there is no flux selection or no measurement error is given; otherwise the logarithm (base 10, or natural when requested) of observed over latent flux is an independent zero-mean normal variable with the requested standard deviation, so observed fluxes stay positive and finite.",
["inputs","configurations"],"all spatial distributions, luminosities incl. derived, sigma values, log base option, n",
"Tests do not compare fluxes with luminosities and distances or look at the scatter statistics.",
["popsynth/population_synth.py","popsynth/distribution.py","popsynth/distributions/cosmological_distribution.py","popsynth/distributions/spherical_distribution.py"],
[("transform","popsynth/distributions/*.py"),("draw_log10_fobs/draw_log_fobs","popsynth/population_synth.py")],
["Population.fluxes.latent / Population.fluxes"])

p("C07","Cosmology functions agree with a flat Lambda-CDM universe",
"Luminosity distance and differential comoving volume agree (to about one per cent, for matter densities above about a quarter) with numerical integration of the flat Lambda-CDM expansion rate for the configured matter density and Hubble constant, in the stated units, for scalars and arrays elementwise. They are positive and luminosity distance is strictly increasing with redshift, and changing the configured cosmology changes all later results accordingly without leftovers of the old one. The star-formation-rate and power-law rate densities equal their documented closed forms, and the time adjustment is 1+z for rates and 1 otherwise.",
["inputs","configurations","histories"],"redshifts 0..~20, Om in (0,1), h0, scalars and arrays, sequences of cosmology changes, rate parameters",
"Tests never evaluate the approximation against integration and never change the cosmology.",
["popsynth/utils/cosmology.py","popsynth/distributions/cosmological_distribution.py","popsynth/utils/configuration.py"],
[("analytic luminosity distance","popsynth/utils/cosmology.py"),("SFR/ZPow closed forms","popsynth/distributions/cosmological_distribution.py")],
["cosmology.luminosity_distance/differential_comoving_volume","SpatialDistribution.dNdV/differential_volume/time_adjustment"])

p("C08","Auxiliary samplers follow their documented true and observed laws",
"True values of every built-in auxiliary sampler follow its documented distribution with the parameters set on it (location, width, bounds, indices, support), for all valid parameter values. Observed values differ from the true ones by independent zero-mean normal noise of the sampler's stated sigma when the sampler is observed with noise, and equal them exactly when it is not observed or has no noise. Truncated samplers never leave their bounds and positive samplers never become negative.",
["inputs"],"all built-in auxiliary samplers, parameters, observed flag, sizes, seeds",
"Tests check a few means or that drawing does not raise at one parameter point.",
["popsynth/aux_samplers/delta_aux_sampler.py","popsynth/aux_samplers/normal_aux_sampler.py","popsynth/aux_samplers/lognormal_aux_sampler.py","popsynth/aux_samplers/trunc_normal_aux_sampler.py","popsynth/aux_samplers/trunc_lognormal_aux_sampler.py","popsynth/aux_samplers/plaw_aux_sampler.py","popsynth/aux_samplers/sky_sampler.py","popsynth/aux_samplers/viewing_angle_sampler.py"],
[("true_sampler/observation_sampler","popsynth/aux_samplers/*.py")],
["AuxiliarySampler.true_values/obs_values","Population auxiliary attributes"])

p("C09","Dependent samplers see the values actually recorded for their objects",
"Each auxiliary quantity is drawn exactly once per survey, after everything it depends on, and a sampler that depends on others (at any depth, shared between parents, or of the luminosity) receives for each object exactly the values recorded in the population for that object, as it does for the object's distance, position and luminosity when it uses them. Every quantity, nested or not, appears in the population with latent and observed values and recorded parameters. The dependency graph attached to the population has exactly the attached quantities and their dependency edges.",
["configurations","inputs"],"random dependency trees/DAGs of samplers with derived luminosity, uses-distance/uses-luminosity flags, observed flags, nested depth",
"Tests contain one or two fixed depth-1/2 trees and do not compare the values seen with the values stored.",
["popsynth/auxiliary_sampler.py","popsynth/population_synth.py","popsynth/population.py"],
[("recursive draw with is_sampled","popsynth/auxiliary_sampler.py draw"),("get_secondary_properties","popsynth/auxiliary_sampler.py"),("derived luminosity","popsynth/population_synth.py draw_survey"),("_build_graph","popsynth/population_synth.py")],
["Population.<name>, Population.truth, Population.graph"])

p("C10","Stand-alone and stochastic selectors follow their stated law",
"A box, lower or upper bound selects a value exactly when it lies within the bound, the bound itself included; a soft selection keeps each object independently with the documented logistic probability of (log10) value around its boundary with its strength; a Bernoulli selection keeps each object independently with its probability; a galactic-plane selection keeps an object exactly when the absolute galactic latitude of its sky position is at least the stated limit. Combining selections is the element-wise conjunction and leaves the right operand unchanged, the counts and index lists always agree with the mask, and a drawn selection is stable until reset, after which it is redrawn.",
["inputs","histories"],"selector types and parameters, values incl. boundary/negative/equal values, operation sequences of set/draw/reset/combine",
"Tests construct selectors but never check what they select.",
["popsynth/selection_probability/generic_selectors.py","popsynth/selection_probability/selection_probability.py","popsynth/selection_probability/flux_selectors.py","popsynth/selection_probability/spatial_selection.py"],
[("draw methods","popsynth/selection_probability/generic_selectors.py"),("__add__, selection properties","popsynth/selection_probability/selection_probability.py")],
["SelectionProbability.selection/n_selected/selection_index"])

p("C11","A population saved to HDF5 reloads with the same contents",
"Writing a population to a file, or to a group inside an open file, and reading it back gives a population with the same arrays, selection, observed and latent values, counts, known distances, functional-form labels, parameters, recorded truths, model grids, probabilities, seed, name, source configuration and dependency graph. The reloaded population supports everything the original does, including saving it again, with no drift over repeated round trips. Saving never alters the population and several populations can share one file without interfering.",
["inputs","histories"],"populations from all configurations incl. empty, none detected, derived luminosity, aux samplers, sub-populations; chains of round trips and multiple groups",
"Tests reload one population and only check that it does not raise.",
["popsynth/population.py","popsynth/utils/hdf5_utils.py"],
[("writeto/addto_group/from_file/_loadfrom_h5","popsynth/population.py"),("recursively_save_dict/load","popsynth/utils/hdf5_utils.py")],
["Population.writeto/addto/from_file/from_group"])

p("C12","A synthesizer written to a file is rebuilt as the same synthesizer",
"Converting a synthesizer to a dictionary or YAML file and rebuilding it gives one with the same distributions, parameters, seed, selections, auxiliary samplers and dependencies, which therefore draws the same survey; this also holds for the configuration stored inside a drawn or reloaded population. The conversion is a fixed point (converting the rebuilt synthesizer gives the same dictionary), neither direction modifies its input, and a dictionary or file can be used any number of times. Hand-written documents in the documented layout build what they say, with optional entries left out.",
["configurations","histories"],"all registered distributions, selections and samplers with arbitrary parameters, names, nestings; repeated conversions; hand-written variants",
"Tests load two fixed YAML files and do not compare the result with a programmatic build.",
["popsynth/population_synth.py","popsynth/auxiliary_sampler.py","popsynth/utils/registry.py"],
[("to_dict/from_dict/write_to/from_file","popsynth/population_synth.py"),("get_secondary_objects","popsynth/auxiliary_sampler.py")],
["PopulationSynth.to_dict/from_dict/write_to/from_file","Population.pop_synth"])

p("C13","A sub-population is the detected or hidden subset of its parent",
"A sub-population of the detected (or of the hidden) objects contains exactly those objects of the parent in their original order with the same luminosities, distances, positions, latent and observed fluxes, auxiliary values and probabilities, all of them marked detected. Its known distances are the same objects' as in the parent, recorded truths, parameters, configuration and seed carry over, and it can be saved, reloaded and converted like any other population. The parent is unchanged.",
["inputs","configurations"],"populations from all configurations, including none, one, and all detected, mixed known distances",
"One test calls it once and only checks that it does not raise.",
["popsynth/population.py"],
[("to_sub_population","popsynth/population.py")],
["Population.to_sub_population"])

p("C14","Simulated variables keep latent, observed and selection aligned",
"A simulated variable behaves as the array of its observed values in arithmetic, comparison, indexing and array functions, and the result of any elementwise operation carries the same operation applied to its latent values and the unchanged selection. Its selected and hidden parts are the elements where the mask is true and false, in order, and are again well-formed variables on which the same operations work. No arithmetic, in place or not, corrupts the latent, observed or selection values of any other variable or applies to observed values only.",
["inputs","histories"],"dtypes, lengths incl. 0, masks, operation sequences (ufuncs, in-place, reductions, slicing, views, copies)",
"Tests cover five hand-written operations on one array.",
["popsynth/simulated_variable.py","popsynth/population.py"],
[("__array_ufunc__, __array_finalize__, selected/non_selected/latent","popsynth/simulated_variable.py")],
["SimulatedVariable"])

p("C15","Parameters respect declared bounds and belong to one instance",
"Setting a parameter of a distribution, selection or sampler outside its declared limits, or setting one declared fixed, is refused and leaves the previous value in force; any value inside the limits, including the limits themselves, is accepted and read back unchanged. Parameters left unset have their declared default. Instances of the same class never share or influence each other's parameter values.",
["inputs","histories"],"all built-in and user-defined parameterised classes, parameter limits incl. none, boundary values, sequences of sets on several instances",
"Tests set a handful of values on single instances.",
["popsynth/utils/meta.py","popsynth/distribution.py","popsynth/auxiliary_sampler.py","popsynth/selection_probability/selection_probability.py"],
[("Parameter descriptor and ParameterMeta","popsynth/utils/meta.py")],
["attribute access on distributions, selectors, samplers"])

p("C16","Analysis export contains exactly the detected data",
"The dictionary exported for statistical analysis contains, for the detected objects in order, their observed fluxes, auxiliary observed values, known distances with their one-based positions among the detected objects, and the positions of those with unknown distances, with counts that match the array lengths. Integration bounds, flux error, model grids and the distance bound are the population's own, and the export never alters the population or exposes hidden objects. Results are the same before and after saving and reloading.",
["inputs","configurations"],"populations of all configurations",
"One test calls it and checks nothing of its content.",
["popsynth/population.py"],
[("to_stan_data","popsynth/population.py")],
["Population.to_stan_data"])

p("C17","Synthesizer history never leaks into later or earlier surveys",
"After any sequence of drawing, re-drawing with other options, attaching, cleaning, resetting and changing parameters, a survey equals the one a freshly built synthesizer with the present configuration would draw. Populations drawn earlier are unaffected by anything done to the synthesizer later. A refused operation (attaching something of the wrong kind, a duplicate name, an already dependent sampler, a missing luminosity) raises and leaves the synthesizer as it was.",
["histories"],"operation sequences over attach/set/clean/draw/parameter change/refused calls on one synthesizer and shared samplers",
"Tests draw each synthesizer once or twice along one path and never compare with a fresh one.",
["popsynth/population_synth.py","popsynth/auxiliary_sampler.py","popsynth/population.py","popsynth/selection_probability/selection_probability.py"],
[("clean/reset","popsynth/population_synth.py"),("reset","popsynth/auxiliary_sampler.py"),("Population construction","popsynth/population_synth.py draw_survey")],
["draw_survey results over histories"])

p("C18","Ready-made populations equal their explicit compositions",
"Each convenience population class (Pareto, Schechter, broken power law, log-normal and log10-normal luminosities in homogeneous-sphere, z-power sphere or cosmology, or SFR cosmology, and the purely spatial ones) draws exactly the survey of a synthesizer composed of the corresponding spatial and luminosity distributions with the same arguments and seed. Each constructor argument reaches the parameter of its name and is readable and changeable through the population, with changes taking effect in the next draw.",
["inputs","configurations"],"all classes, arguments, seeds, rate flags",
"Tests draw each class at one parameter point and cannot notice swapped or dropped arguments.",
["popsynth/populations/pareto_populations.py","popsynth/populations/schechter_populations.py","popsynth/populations/bpl_population.py","popsynth/populations/lognormal_population.py","popsynth/populations/spatial_populations.py"],
[("constructors and properties","popsynth/populations/*.py")],
["constructors in popsynth.populations"])

p("C19","User configuration and logging controls take effect exactly as set",
"The effective configuration is the default overlaid by the user's file (partial files keep the other defaults, invalid entries are refused), and its cosmology, logging and progress settings are the ones in force after import. Silencing, activating, temporarily changing or updating log levels changes exactly the stated outputs, nests and repeats safely, and re-activating returns to the levels in force before silencing. None of them changes survey results.",
["configurations","histories"],"user configuration documents (complete, partial, empty, invalid), sequences of logging/progress calls",
"Tests call two logging functions once and never write a user configuration.",
["popsynth/utils/configuration.py","popsynth/utils/logging.py","popsynth/__init__.py"],
[("OmegaConf merge","popsynth/utils/configuration.py"),("handlers","popsynth/utils/logging.py")],
["popsynth.utils.configuration.popsynth_config","handlers"])

p("C20","Plots show the population's own latent and observed values",
"Displays of fluxes, true fluxes, luminosities, distances and flux-distance relations draw exactly the values they claim: latent where true values are asked for, observed otherwise, for the detected or hidden objects stated, with arrows from the latent to the observed position of the same object. Displaying never changes the population or the random state and works for every population, including empty or fully detected ones.",
["inputs","configurations"],"populations of all configurations, display options",
"Tests only call the displays on one population.",
["popsynth/population.py"],
[("display_* methods","popsynth/population.py")],
["matplotlib artists returned by display methods"])
json_lines="\n".join(json.dumps(x) for x in P)+"\n"
open("/verif/properties.jsonl","w").write(json_lines)
