"""Writes properties.jsonl (kept as a script so that the statements are easy to edit and diff)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw))
    assert len(title) <= 80, (id, len(title))
    if "state" in d["anchors"]:
        d["anchors"]["state"] = [dict(name=s, meaning=s + " (read and written across calls)", where=mech[0][1]) for s in d["anchors"]["state"]]
    P.append(d)

add("P01", "Seeded runs reproduce exactly, whatever ran earlier in the process",
    "With numpy's global random state set to the same value and equal arguments, a preset model (CDM, WDM, mixed/general WDM, ULDM, SIDM, correlated structure, black holes), a direct pyHalo.render call or a realization extension returns the same halos (count, masses, positions, redshifts, tags, profile parameters) and the same lensing export, bit for bit. "
    "This holds in a fresh process and after any history of other pyHalo calls in the same process: other models, other arguments, other cosmologies, calls that failed or were interrupted; only a concentration model instance handed to several calls may move concentrations within the documented 1e-3 accuracy of its internal table.",
    ["histories", "fault_sequences"],
    "all call histories in one process followed by a seeded call",
    "A unit test makes one call from a clean state; state that leaks through mutable defaults, module globals, colossus' current cosmology or a cache only shows after a particular earlier call.",
    ["pyHalo/PresetModels/cdm.py", "pyHalo/PresetModels/wdm.py", "pyHalo/PresetModels/sidm.py", "pyHalo/PresetModels/uldm.py", "pyHalo/PresetModels/mbh.py", "pyHalo/pyhalo.py", "pyHalo/Rendering/halo_population.py", "pyHalo/Halos/lens_cosmo.py"],
    [("preset models configure classes through keyword dictionaries with mutable defaults", "PresetModels/cdm.py CDM(), wdm.py WDM()"),
     ("infall model configuration", "Halos/lens_cosmo.py LensCosmo.setup_infall_model"),
     ("one render path drawing from the global numpy generator", "pyhalo.py pyHalo.render")],
    state=["numpy global RandomState", "mutable default arguments", "colossus current cosmology"],
    observe_at=["Realization.masses/x/y/redshifts", "Realization.lensing_quantities()"])
add("P02", "Calls never modify what the caller passed in, nor the default arguments",
    "Preset models, pyHalo.render, Geometry/LensCosmo/Cosmology, concentration, truncation, infall, mass-function and rendering constructors, and realization extensions leave every keyword dictionary, list and array passed by the caller as it was, and may be called again with the same objects. "
    "A call that omits an optional keyword dictionary gets the documented default, not values left behind by an earlier call, including an earlier call that failed part-way.",
    ["histories", "inputs"],
    "all sequences of calls sharing argument objects, with and without a failure part-way",
    "Tests pass fresh literals to each call, so a call that writes into the caller's or the default dictionary never meets a second user of it.",
    ["pyHalo/PresetModels/cdm.py", "pyHalo/PresetModels/wdm.py", "pyHalo/PresetModels/external.py", "pyHalo/Halos/lens_cosmo.py", "pyHalo/Halos/concentration.py", "pyHalo/Rendering/rendering_class_base.py", "pyHalo/truncation_models.py", "pyHalo/concentration_models.py"],
    [("keyword arguments completed before being handed to model classes", "PresetModels/*.py"),
     ("infall model keyword arguments", "Halos/lens_cosmo.py setup_infall_model"),
     ("mass-function keyword arguments", "Rendering/rendering_class_base.py")],
    observe_at=["the caller's argument objects", "results of the next call"])
add("P03", "Sessions with different cosmologies in one process never affect each other",
    "Objects built for different cosmologies, redshifts or halo-model settings can be used alternately in one process: each query (distances, ages, concentrations, peak heights, mass functions, two-halo terms, rendered realizations, lensing export) returns what it returns when its session runs alone. "
    "Only sessions that share an object by construction (for example one realization) may see each other.",
    ["schedules", "configurations"],
    "all interleavings, at API-call granularity, of several independent client sessions",
    "Whether another session selected a different cosmology between construction and query depends on the interleaving; tests run one session at a time.",
    ["pyHalo/Cosmology/cosmology.py", "pyHalo/Halos/concentration.py", "pyHalo/Rendering/MassFunctions/density_peaks.py", "pyHalo/Halos/lens_cosmo.py", "pyHalo/Rendering/two_halo.py"],
    [("colossus cosmology selected process-wide", "Cosmology/cosmology.py Cosmology.colossus/_setup_colossus_cosmology"),
     ("colossus queries made later", "Halos/concentration.py, MassFunctions/density_peaks.py, lens_cosmo.py twohaloterm")],
    state=["colossus global cosmology"], observe_at=["query results per session"])
add("P04", "Halo properties do not depend on the order in which they are read",
    "Every derived property of a halo (concentration, infall redshift, NFW and physical parameters, truncation radius, bound mass, enclosed mass, density, lensing keywords) has the same value whichever properties were read before it, in whatever order and however often. "
    "The batch precomputation of the same properties and a copy or pickle taken at any point give the same values as lazy evaluation.",
    ["schedules", "histories"],
    "all orders of property reads, batch precomputation and copying on every halo class",
    "Each lazily cached property can be reached along many read orders; tests read one or two orders on one or two halo classes.",
    ["pyHalo/Halos/halo_base.py", "pyHalo/Halos/HaloModels/TNFW.py", "pyHalo/Halos/HaloModels/NFW_core_trunc.py", "pyHalo/Halos/HaloModels/generalized_nfw.py", "pyHalo/Halos/HaloModels/core_collapsed_halo.py", "pyHalo/Halos/batch_halo_util.py"],
    [("lazy properties cached on the instance", "Halos/halo_base.py Halo.z_infall/c/nfw_params and HaloModels/*.py profile_args, lenstronomy_params"),
     ("vectorised cache warming", "Halos/batch_halo_util.py precompute_*")],
    state=["per-halo caches"], observe_at=["public halo properties"])
add("P05", "A halo's random properties are drawn once and agree with each other",
    "Scatter in concentration, the infall redshift, the bound mass and the truncation radius of a halo are drawn at most once: reading them again, exporting, filtering, joining or copying the realization neither changes them nor consumes random numbers. "
    "What the halo reports is one self-consistent object: its truncation radius follows from its bound mass (for truncation models defined through a bound mass), its concentration is evaluated at its own infall redshift, and its exported lensing profile uses those same values.",
    ["histories", "inputs"],
    "all histories of reads and realization operations, under every stream of random draws",
    "A property drawn twice gives two individually plausible values; only comparing two reads, or two properties that should stem from one draw, over a history shows it.",
    ["pyHalo/Halos/halo_base.py", "pyHalo/Halos/HaloModels/TNFW.py", "pyHalo/Halos/tidal_truncation.py", "pyHalo/single_realization.py"],
    [("draw-once caches", "Halos/halo_base.py z_infall, HaloModels/TNFW.py c, bound_mass_galacticus_definition, profile_args"),
     ("bound mass to truncation radius", "Halos/tidal_truncation.py truncation_radius_from_bound_mass")],
    state=["numpy global RandomState", "per-halo caches"], observe_at=["public halo properties", "random state before and after"])
add("P06", "Filtering, splitting and joining realizations is exact set algebra on halos",
    "filter, filter_subhalos, filter_bound_mass, split_at_z, realization_at_z, halos_at_z, join and from_halos return exactly the halos their documented rule selects, none lost, duplicated or invented, as the same halo objects; split then join restores the original set, and == holds exactly when both realizations contain the same tags. "
    "The result keeps the parent's lens cosmology, geometry, rendering classes, rendering centre and shift status; its per-halo arrays agree with its halo list; the parent is unchanged.",
    ["histories", "inputs"],
    "all sequences of realization operations, including empty selections, ties and shared halos",
    "Selection errors appear only for particular mixes of planes, masses, ties and repeated operations; tests check one hand-made realization per method.",
    ["pyHalo/single_realization.py"],
    [("selection methods", "single_realization.py Realization.filter/filter_subhalos/filter_bound_mass/split_at_z/join"),
     ("array refresh", "single_realization.py Realization._reset")],
    observe_at=["Realization.halos and arrays of result and parent"])
add("P07", "Aligning with the source shifts each halo once, by the ray, and only the copy",
    "shift_background_to_source offsets every halo at or beyond min_shift_redshift that is not fixed in position by exactly the ray's angle at its comoving distance, keeps all other halos unshifted, and puts mass sheets on the same path. "
    "It applies at most once however often and through whatever derived realizations (filtered, joined, split, extended) it is called, positions in arrays, halos and lensing export agree afterwards, and the original realization and its exports do not move.",
    ["histories"],
    "all sequences of shift, export and derivation operations on realizations sharing halos",
    "The error needs a sequence: derive then shift again, export then shift, shift then use the original; tests deep-copy first and shift once.",
    ["pyHalo/single_realization.py", "pyHalo/realization_extensions.py"],
    [("shift and shift marker", "single_realization.py Realization.shift_background_to_source, _has_been_shifted"),
     ("derived realizations built from halos", "single_realization.py Realization.from_halos, realization_extensions.py")],
    observe_at=["halo.x/y", "Realization.x/y", "lensing_quantities() centres and sheet centres"])
add("P08", "Lensing export is complete, aligned, current and independent of its caller",
    "lensing_quantities returns lens models, redshifts and keyword dictionaries of equal length, in halo order followed by mass sheets, each entry carrying its halo's redshift, position and current parameters; a position shift or (for NFW-type halos) a normalization rescaling made through the documented methods is reflected in the next export and in the enclosed-mass, physical-parameter and bound-mass queries of the same halo, whatever was cached before. "
    "Every call returns fresh dictionaries that the caller may edit without affecting the realization or later exports, and repeated exports are equal.",
    ["histories"],
    "all sequences of reads, rescalings, exports and edits of exported dictionaries",
    "Stale caches need read-then-change-then-read sequences on a particular class; tests export once.",
    ["pyHalo/single_realization.py", "pyHalo/Halos/halo_base.py", "pyHalo/Halos/HaloModels/TNFW.py", "pyHalo/Halos/HaloModels/NFW.py", "pyHalo/Halos/HaloModels/NFW_core.py"],
    [("export loop", "single_realization.py Realization.lensing_quantities"),
     ("cache invalidation on rescale", "Halos/halo_base.py Halo.rescale_normalization")],
    state=["per-halo caches"], observe_at=["lensing_quantities()", "halo properties"])
add("P09", "Rendered halos respect mass range, planes, cone and flags for every draw",
    "Whatever the random stream, every rendered halo has a mass inside the configured range, a redshift on one of the lens planes strictly between observer and source, a position inside the rendering aperture of its plane, and the subhalo flag, mass definition and 3-D position documented for its population; subhalos lie in the main lens plane only, with a 3-D radius inside the host's virial radius where the spatial model defines one (it is drawn independently of the projected radius, by documented approximation). The random numbers map to masses and positions through the documented distributions (power law or turnover mass function, uniform disk, cored NFW). "
    "Empty planes and zero counts produce consistent (possibly empty) output, and the per-halo arrays always have equal length.",
    ["inputs", "configurations"],
    "all legal outcomes of every random draw, including the extremes of each distribution, and all geometry, mass-function and spatial configurations",
    "Boundary draws (0, the largest float below 1, zero or very large Poisson counts) have probability ~0 under a fixed test seed.",
    ["pyHalo/pyhalo.py", "pyHalo/Rendering/halo_population.py", "pyHalo/Rendering/line_of_sight.py", "pyHalo/Rendering/subhalos.py", "pyHalo/Rendering/two_halo.py", "pyHalo/Rendering/MassFunctions/mass_function_base.py", "pyHalo/Rendering/SpatialDistributions/uniform.py", "pyHalo/Rendering/SpatialDistributions/nfw.py", "pyHalo/Cosmology/geometry.py"],
    [("population rendering", "Rendering/halo_population.py HaloPopulation.render"),
     ("inverse-CDF mass draws", "Rendering/MassFunctions/mass_function_base.py"),
     ("position draws", "Rendering/SpatialDistributions/*.py"),
     ("mass definition assignment", "pyhalo.py _create_realization")],
    state=["numpy random draws"], observe_at=["Realization arrays and halos"])
add("P10", "Mass sheets: one per rendered plane, balancing the mass rendered there",
    "The convergence-sheet correction adds sheets of negative convergence for the rendering classes that carry them (LINE_OF_SIGHT: one at each lens plane with a nonzero expected mass, restricted to zmin/zmax; SUBHALOS: one at the lens redshift; LINE_OF_SIGHT_NOSHEET and TWO_HALO: none), centred on the rendering volume's path, scaling linearly with the kappa scale arguments and restricted to the requested mass range. "
    "With exact sheets the sheet at each plane carries exactly the mass the realization holds there (bound mass for subhalos of classes that define one); with theoretical sheets it equals the expectation over renders of the mass drawn in that range, and exporting twice or exporting derived realizations gives the same sheets.",
    ["inputs", "histories"],
    "all configurations, random streams and operation histories before export",
    "Mass balance is a statement about the expectation over many renders and about every plane; a test compares one number for one configuration.",
    ["pyHalo/single_realization.py", "pyHalo/Rendering/line_of_sight.py", "pyHalo/Rendering/subhalos.py", "pyHalo/Rendering/two_halo.py", "pyHalo/Rendering/correlated_structure.py"],
    [("sheet assembly", "single_realization.py Realization._mass_sheet_correction"),
     ("per-class sheets", "Rendering/*.py convergence_sheet_correction"),
     ("exact mass per plane", "single_realization.py mass_at_z_exact")],
    observe_at=["lensing_quantities(kwargs_mass_sheet=...)"])
add("P11", "SIDM, core-collapse and cored-halo transforms convert exactly the selected halos",
    "toSIDM*, core_collapse_by_mass, add_core_collapsed_halos, add_cored_halos and SIS_injection replace exactly the halos their selection rule picks (probability 0 picks none, probability 1 all eligible) and pass every other halo on as the same object; the number of halos is conserved and masses, positions, redshifts, subhalo flags, tags, infall redshifts, concentrations and bound masses carry over. "
    "The source realization keeps its halos and their properties, the result inherits lens cosmology, geometry, rendering classes, centre and shift status, and transforming with the same random stream gives the same result.",
    ["histories", "inputs"],
    "all realizations, selections, random streams and prior operations",
    "Shared argument dictionaries and partial inheritance only show when the source is used after the transform, or a transform follows another; tests transform once and inspect the result.",
    ["pyHalo/realization_extensions.py", "pyHalo/PresetModels/sidm.py", "pyHalo/Halos/HaloModels/NFW_core_trunc.py", "pyHalo/Halos/HaloModels/core_collapsed_halo.py"],
    [("halo replacement", "realization_extensions.py RealizationExtensions.toSIDM*/add_core_collapsed_halos/add_cored_halos/SIS_injection"),
     ("collapse probabilities", "realization_extensions.py core_collapse_by_mass")],
    observe_at=["halos of source and result realization"])
add("P12", "Adding compact objects leaves existing halos alone and obeys its limits",
    "add_globular_clusters, add_primordial_black_holes and add_ULDM_fluctuations return a realization containing every original halo (same tags, order, masses, positions and redshifts) plus the new objects; add_black_holes returns the black holes alone, to be joined. "
    "The new objects' number, masses, positions and redshifts respect the documented mass function, mass floor and cap, aperture and plane rules for every random stream; zero expected objects add none. "
    "The source realization is unchanged and the result inherits lens cosmology, geometry, rendering classes, centre and shift status.",
    ["inputs", "histories"],
    "all random streams, apertures, source realizations and repeated application",
    "Limits are broken only for unusual draws or when an extension follows another operation; tests use one seed and inspect counts.",
    ["pyHalo/realization_extensions.py", "pyHalo/Rendering/correlated_structure.py"],
    [("object injection", "realization_extensions.py add_black_holes/add_globular_clusters/add_primordial_black_holes/add_ULDM_fluctuations")],
    observe_at=["halos of source and result realization"])
add("P13", "An interrupted call leaves objects intact; a retry gives the same result",
    "If an exception (KeyboardInterrupt, MemoryError, a failing lower-level call) stops a pyHalo call at any point, every object that existed before the call (realizations, halos, cosmologies, concentration tables, geometry caches, argument dictionaries) still answers every query exactly as if the call had never started. "
    "Restoring the random state and repeating the call then gives the result of an undisturbed call; random properties of existing halos that the interrupted call was the first to draw may stay as it drew them.",
    ["crash_points", "fault_sequences"],
    "all points inside any call at which an exception can surface",
    "Tests never interrupt a call; half-updated caches or half-shifted realizations exist only between two statements.",
    ["pyHalo/single_realization.py", "pyHalo/Halos/halo_base.py", "pyHalo/Halos/concentration.py", "pyHalo/Cosmology/cosmology.py", "pyHalo/Cosmology/geometry.py", "pyHalo/realization_extensions.py", "pyHalo/Halos/batch_halo_util.py"],
    [("in-place update of shared halos", "single_realization.py shift_background_to_source"),
     ("table rebuild", "Halos/concentration.py _build_table"),
     ("lazy caches", "Halos/HaloModels/*.py")],
    observe_at=["public queries after the fault"])
add("P14", "Galacticus files and emulator tables are read exactly as written, or an error",
    "Reading a Galacticus HDF5 file returns exactly the stored node data for the requested output (the one with the highest number by default), every per-node array complete and aligned with the tree each node belongs to, or raises; an output that does not exist, a truncated file, a failing read or an interruption never yields partial, misaligned or stale data, the file is closed afterwards in every case, a file handed in open stays open, and the arrays returned belong to the caller. "
    "The same holds for a file with a single tree or several. The node filters select exactly the nodes their documentation names. A realization built from node data, or from an emulator's rows, has one subhalo for each selected node or row, carrying that node's own mass, profile parameters, infall redshift and position (for node data projected along the requested direction, inside the cone), next to the line-of-sight halos the chosen preset renders in that cone.",
    ["fault_sequences", "inputs"],
    "all file contents and all I/O failures at any read",
    "Tests build one realization from a dictionary of ten nodes; no test reads a file at all, so truncated, failing, replaced or multi-output files never occur.",
    ["pyHalo/Halos/galacticus_util/galacticus_util.py", "pyHalo/Halos/galacticus_util/galacticus_filter.py", "pyHalo/PresetModels/external.py", "pyHalo/Halos/HaloModels/TNFWFromParams.py"],
    [("file traversal", "Halos/galacticus_util/galacticus_util.py GalacticusUtil.read_nodedata_galacticus/hdf5_read_galacticus_nodedata/hdf5_read_custom_nodedata"),
     ("node filters", "Halos/galacticus_util/galacticus_filter.py"),
     ("nodes and rows to halos", "PresetModels/external.py DMFromGalacticus/DMSubhalosFromEmulator/JointLOSWithEmulator")],
    state=["open HDF5 handles"], observe_at=["returned node data", "open file handles", "halos of the realization"])
add("P15", "Concentrations do not depend on which queries came before",
    "A concentration model returns, for a given mass and redshift, the same median concentration (to the documented 1e-3 accuracy of its internal table) whatever masses and redshifts were queried before, for scalar masses and numpy arrays of masses alike, equal to the direct evaluation of its relation, and never below the documented minimum. "
    "With scatter on, each evaluation is that median times one lognormal draw of the configured width (the parameter is the standard deviation of ln c), per halo; an evaluation interrupted while the table is being built does not alter later results.",
    ["histories", "fault_sequences", "inputs"],
    "all query histories, in and out of the tabulated range, with interruptions during a rebuild",
    "The table is rebuilt when a query leaves its range, so an error appears only after a particular earlier query; tests query a fresh instance once.",
    ["pyHalo/Halos/concentration.py", "pyHalo/concentration_models.py"],
    [("lazily built, growing interpolation table", "Halos/concentration.py _ConcentrationCDM._evaluate_concentration_from_table"),
     ("scatter and floor", "Halos/concentration.py nfw_concentration")],
    state=["interpolation table"], observe_at=["nfw_concentration"])
add("P16", "Distances, ages and geometry answers do not depend on query history",
    "Cosmology, LensCosmo and Geometry queries (distances, ages, kpc per arcsec, critical densities, areas, volumes, rendering radii) return the same value whenever asked, whatever was queried before, scalar or array, equal to the astropy/analytic definition within interpolation accuracy; distances grow with redshift, ages shrink, and cone volume elements add up to the total volume. "
    "Lens planes (for redshifts and spacings given to two decimals, the resolution the code works at) partition the line of sight: strictly increasing, inside (0, z_source), containing the lens redshift, spacings summing to the covered range.",
    ["histories", "configurations"],
    "all query orders and all lens/source/geometry configurations",
    "Memoised and interpolated lookups answer differently only after a particular history or for a particular configuration.",
    ["pyHalo/Cosmology/cosmology.py", "pyHalo/Cosmology/geometry.py", "pyHalo/Halos/lens_cosmo.py", "pyHalo/utilities.py"],
    [("memoised distances", "Cosmology/cosmology.py D_C_z"), ("age interpolation", "Cosmology/cosmology.py halo_age"),
     ("volume elements", "Cosmology/geometry.py"), ("lens planes", "utilities.py generate_lens_plane_redshifts")],
    state=["memoisation tables"], observe_at=["query results"])
add("P17", "Subhalo infall and tidal stripping draws stay physical for every draw",
    "For every random draw, a subhalo's infall redshift is finite and not after the lens redshift (within the model's documented range), and every truncation model gives a finite positive truncation radius; models that draw a bound mass give a value in (0, infall mass], and the exported truncated profile encloses the corresponding mass. "
    "Draws are reproducible and independent per halo: the properties of one subhalo depend only on its own draws.",
    ["inputs"],
    "all outcomes of the infall and stripping distributions, including their extremes, for all masses, positions, redshifts and hosts",
    "The failing draws sit in the tails of the distributions; a test sees a few hundred draws from the bulk.",
    ["pyHalo/Halos/accretion.py", "pyHalo/Halos/tidal_truncation.py", "pyHalo/Halos/tnfw_halo_util.py", "pyHalo/Halos/galacticus_truncation/interp_mass_loss.py", "pyHalo/truncation_models.py"],
    [("infall distributions", "Halos/accretion.py"), ("bound mass draws", "Halos/tidal_truncation.py calculate_mbound"),
     ("mass to truncation radius", "Halos/tnfw_halo_util.py")],
    state=["numpy random draws"], observe_at=["z_infall", "bound_mass_galacticus_definition", "profile_args/params_physical"])
add("P18", "Mass functions draw what they promise: counts, ranges, thinning and sums",
    "A mass function draws masses inside [10^log_mlow, 10^log_mhigh], as many as the Poisson draw of its expected number (or that number rounded when draw_poisson is off), from the inverse CDF of its power law, so that counts and summed mass over renders agree with the analytic expectation it reports. "
    "A warm-dark-matter turnover only thins: halos surviving are a subset, kept with the documented probability between 0 and 1, the same masses as the cold model under the same draws.",
    ["inputs"],
    "all random streams and all mass-function parameters, including the extremes of each draw",
    "One seed checks one outcome of each draw; exact agreement with the inverse CDF for chosen draws, and the count for chosen Poisson outcomes, needs control of the generator.",
    ["pyHalo/Rendering/MassFunctions/mass_function_base.py", "pyHalo/Rendering/MassFunctions/density_peaks.py", "pyHalo/Rendering/MassFunctions/gaussian.py", "pyHalo/Rendering/MassFunctions/delta_function.py", "pyHalo/Rendering/MassFunctions/util.py", "pyHalo/mass_function_models.py"],
    [("counts and inverse-CDF draws", "MassFunctions/mass_function_base.py draw/n_expected"), ("turnover rejection", "MassFunctions/mass_function_base.py WDMPowerLaw")],
    state=["numpy random draws"], observe_at=["draw()", "first_moment", "n_mean_expected"])
add("P19", "Structure placed around existing halos follows the halos and the mass budget",
    "Correlated structure renders, at each populated plane, the number of objects its mass fraction and the projected mass in the aperture call for, at positions inside the aperture around the given coordinates (up to the smoothing of one pixel) and drawn with probability following the positive part of the host convergence map, on existing lens planes only. "
    "Array lengths agree, planes without halos contribute nothing, the host realization is unchanged, and the mean rendered mass equals the requested fraction of the projected mass.",
    ["inputs", "configurations"],
    "all host realizations, apertures and random streams",
    "Needs populations with several planes and the sampled positions compared with the map they are drawn from, over many draws.",
    ["pyHalo/Rendering/correlated_structure.py", "pyHalo/Rendering/SpatialDistributions/correlated.py", "pyHalo/realization_extensions.py"],
    [("projected mass and rendering", "Rendering/correlated_structure.py CorrelatedStructure.render/_kappa_at_lens_plane"), ("2-D sampling", "Rendering/SpatialDistributions/correlated.py Correlated2D.draw")],
    state=["numpy random draws"], observe_at=["render() output", "host realization"])
add("P20", "NFW-type profiles conserve mass and match their lensing parameters",
    "For every halo class the 3-D density, enclosed mass, bound mass and the lenstronomy keywords describe the same profile: integrating the density reproduces the enclosed mass, the truncated profile encloses the bound mass within the infall virial radius, and converting the keywords back to physical units reproduces the density normalization.",
    ["inputs"], "all halo masses, concentrations, redshifts and truncation radii",
    "A closed-form statement over a continuum of inputs.",
    ["pyHalo/Halos/HaloModels/TNFW.py", "pyHalo/Halos/HaloModels/NFW.py", "pyHalo/Halos/lens_cosmo.py", "pyHalo/Halos/tnfw_halo_util.py"],
    [("profile formulae", "Halos/HaloModels/*.py density_profile_3d, mass_3d, lenstronomy_params")],
    observe_at=["density_profile_3d", "mass_3d", "lenstronomy_params"])
add("P21", "Transfer-function and mass-function fits reproduce their published relations",
    "The half-mode mass, free-streaming, thermal-relic, Stucker transfer-function and Sheth-Tormen/Schive fits return the published formulae, are monotone in particle mass, and their conversions are mutual inverses.",
    ["inputs"], "all particle masses and fit parameters",
    "A closed-form statement over a continuum of inputs.",
    ["pyHalo/Rendering/MassFunctions/stucker.py", "pyHalo/Halos/lens_cosmo.py", "pyHalo/PresetModels/uldm.py"],
    [("fits", "Rendering/MassFunctions/stucker.py, Halos/lens_cosmo.py mthermal_to_halfmode")],
    observe_at=["return values"])
add("P22", "Rendered populations have the abundance their arguments ask for",
    "For every preset model and every rendered list of populations, the expected number of halos of each population on each plane - subhalos, field halos and the two-halo term - is the one its documented arguments define (amplitude in any of the accepted forms, host mass and redshift scaling, power-law slope and tilt, mass limits, line-of-sight rescaling and two-halo boost, rendered area and volume), and each drawn halo has the mass, redshift and mass-function cutoff that its random quantiles define, whatever was rendered, stopped or shared before.",
    ["inputs", "configurations", "histories"],
    "all documented argument combinations of the presets and of render(), all cosmologies, all draws, all earlier calls",
    "Tests look at the size of one rendered population within Poisson noise; wrong amplitudes, scalings or a population taken from the wrong argument disappear in it. Only with the draws under control are the expectations themselves visible.",
    ["pyHalo/preset_models.py", "pyHalo/PresetModels/", "pyHalo/pyhalo.py", "pyHalo/Rendering/subhalos.py", "pyHalo/Rendering/line_of_sight.py", "pyHalo/Rendering/two_halo.py", "pyHalo/Rendering/MassFunctions/"],
    [("amplitudes", "pyHalo/utilities.py, PresetModels/*.py, Rendering/subhalos.py"), ("rendering", "Rendering/line_of_sight.py, Rendering/two_halo.py, Rendering/MassFunctions/mass_function_base.py")],
    state=["numpy random draws", "shared keyword dictionaries"], observe_at=["means of the Poisson draws", "halos of the realization: mass, z, is_subhalo"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
