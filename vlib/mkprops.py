"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []

def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe or [], hook_needed=None))
    if state:
        d["anchors"]["state"] = state
    assert len(title) <= 80, title
    P.append(d)

M = "rubin_sim/maf/"
p("C01", "Binning slicers assign every visit to exactly the right slice",
  "For any set of visits and any binning, a slicer over visit values (one or several columns), time steps, "
  "nights/intervals, blocks or visit ids delivers to each slice exactly the visits whose values fall in that "
  "slice's stated range or group, no visit twice, and visits inside the binned range are never lost. The number "
  "of slices, their edges and identifiers agree with what is delivered, the single-slice slicer delivers every "
  "visit, and setting a slicer up again on other data leaves nothing of the old data behind.",
  ["inputs", "configurations", "histories"],
  "any visit table (ties, edge values, unsorted, single row), any bin specification (explicit edges, number, size, min/max), any re-setup order",
  "tests use a few uniform random columns and one bin specification each; edge ties, unsorted data, re-use and combinations of options are not sampled",
  [M + "slicers/one_d_slicer.py", M + "slicers/nd_slicer.py", M + "slicers/movie_slicer.py", M + "slicers/time_interval_slicers.py", M + "slicers/uni_slicer.py"],
  [("per-slice index arrays from sort + searchsorted / digitize", M + "slicers/one_d_slicer.py")],
  ["slicer[i]['idxs'] / slice_point for every i after setup_slicer"])

p("C02", "Sky slicers deliver exactly the visits that cover each sky point",
  "For any pointings and any sky point set (equal-area grid, a subset of it, or user-supplied points), the visits "
  "delivered for a point are exactly those whose pointing lies within the field radius of the point - and, with the camera "
  "footprint on, whose rotated footprint contains it - including at the poles and across RA 0. Each point carries its own "
  "correct identifier and coordinates; degrees and radians inputs, rotation handling and result caching never change the answer.",
  ["inputs", "configurations"],
  "any pointing set, resolution, radius, coordinate unit, rotation, camera on/off, point subset",
  "the spatial tests sample one grid with uniform pointings, and the camera tests cannot run without data files",
  [M + "slicers/base_spatial_slicer.py", M + "slicers/healpix_slicer.py", M + "slicers/healpix_subset_slicer.py", M + "slicers/user_points_slicer.py"],
  [("KD-tree radius query on unit vectors, optional footprint filter", M + "slicers/base_spatial_slicer.py")],
  ["slicer[i]['idxs'] / slice_point"])

p("C03", "A metric's values do not depend on what else runs with it",
  "Every metric run through a group yields the values, mask and reduced values it would yield alone on a fresh copy of the selected visits: "
  "grouping, run order, caching of repeated visit sets, other bundles' added columns, maps, constraints and slicers "
  "never leak between results. A slice with no visits, or whose metric returns the bad value, is masked, and every other slice holds exactly the metric of its visits.",
  ["inputs", "configurations", "histories"],
  "any collection of bundles over shared or different constraints, slicers, metrics, added columns, maps and summary/reduce settings, in any order, from a database or in-memory table",
  "tests run one or two compatible bundles; leakage needs particular combinations of bundles in a group",
  [M + "metric_bundles/metric_bundle_group.py", M + "metric_bundles/metric_bundle.py", M + "slicers/base_spatial_slicer.py"],
  [("compatibility grouping of bundles", M + "metric_bundles/metric_bundle_group.py"), ("LRU cache keyed on visit set", M + "metric_bundles/metric_bundle_group.py")],
  ["MetricBundle.metric_values / summary_values after run_all"])

p("C04", "Saved metric results read back identical",
  "Any computed metric result written to disk and read back - as a bundle, through its slicer, or by recreating an empty bundle - has the same "
  "values, mask, bad value, metric name, run name, constraint, description, plot settings and summary values, and its slicer compares equal to the original and has the same slice points. "
  "The JSON form carries exactly the unmasked values at the right slice coordinates (masked histogram bins as zero), file names tell apart results whose metric name, run, label or kind of slicer differ, "
  "and two results that would share a file name are refused.",
  ["inputs", "configurations"],
  "any slicer type and parameters, float/int/object values, masks (none, some, all), unusual characters in names",
  "round-trip tests use one array per slicer with fixed parameters and no odd names",
  [M + "slicers/base_slicer.py", M + "metric_bundles/metric_bundle.py", M + "utils/output_utils.py"],
  [("npz serialisation of header, slicer parameters, masked values", M + "slicers/base_slicer.py")],
  ["bundle.write / create_empty_metric_bundle().read / output_json"])

p("C05", "The per-run results database records every result once and correctly",
  "After any history of recording metrics, displays, plots and summary statistics - also across close and reopen - the results database returns each metric "
  "once with the metadata it was first recorded with and its latest display settings, every summary value as given, plots and displays attached to the right metric, and queries by name, slicer, metadata, run or plot return exactly the matching entries. "
  "Re-recording the same metric keeps its identifier, several writers of one database lose nothing, and arguments handed in are not modified.",
  ["histories", "inputs"],
  "any sequence of updates and queries, scalar/table summary values of any numeric type, reopening between steps",
  "tests insert one or two fixed metrics and read back one value",
  [M + "db/results_db.py"], [("SQLAlchemy tables metrics/displays/plots/summarystats", M + "db/results_db.py")],
  ["ResultsDb query methods"])

p("C06", "Run tracking and cross-run summaries return what each run recorded",
  "The tracking database gives every distinct analysis directory one stable run id, lists every run added and not deleted with its recorded details, and never mixes runs. Summary values gathered "
  "across runs equal those stored in each run's results, each under its own run and metric label, and normalising or ranking them against a baseline follows the stated direction for each metric.",
  ["histories", "inputs"],
  "any sequence of add/delete/re-add, any set of per-run result databases, any normalisation set and baseline choice",
  "tests add a handful of runs once; gathering and normalisation are tested only on fixed frames",
  [M + "db/tracking_db.py", M + "db/add_run.py", M + "run_comparison/gather_summaries.py", M + "run_comparison/archive.py", M + "run_comparison/summary_plots.py"],
  [("run table keyed by analysis dir", M + "db/tracking_db.py"), ("summary stat collection", M + "run_comparison/gather_summaries.py")])

p("C07", "Basic statistics metrics equal their definitions for any visits",
  "Each basic metric (counts, sums, extremes, averages, spread, percentiles, fractions, thresholds, angles, unique values, coadded depth and the like) returns, for any non-empty set of visits in any order, the statistic its "
  "documentation defines over exactly the rows and column given, honouring its options, and does not modify the data. Column requirements, names, units and bad values reported by a metric describe what it uses and returns.",
  ["inputs", "configurations"],
  "any visit subset, any order, ties, single rows, negative and wrapped angles, any option values",
  "tests check a few small arrays per metric, with default options",
  [M + "metrics/simple_metrics.py", M + "metrics/base_metric.py", M + "metrics/string_count_metric.py", M + "metrics/technical_metrics.py"],
  [("numpy reductions over the slice", M + "metrics/simple_metrics.py")])

p("C08", "Summary statistics combine slice values exactly as defined",
  "Summary statistics over a result use exactly its unmasked values (or the stated fill for masked ones), whatever the mask, order or number of slices, and equal their definitions: "
  "area at or beyond a threshold, statistics of the best area, fraction of a footprint covered, normalised and shifted values, plain statistics. Computing them never changes the result itself and each is stored under its own name.",
  ["inputs", "configurations"],
  "any value array and mask, any nside, any thresholds and options, any combination of summary metrics on a bundle",
  "tests check single arrays with no or trivial masks",
  [M + "metrics/summary_metrics.py", M + "metrics/area_summary_metrics.py", M + "metric_bundles/metric_bundle.py"],
  [("summary metrics run on compressed or filled values", M + "metric_bundles/metric_bundle.py")])

p("C09", "Added columns are correct and leave the original visit data intact",
  "Every column-adding step returns a table with the same rows in the same order, all original columns unchanged, and its declared columns present with its declared types and values equal to the documented quantity for each row, in "
  "the units it declares for the configured options. Running a step twice, on reordered rows, or over data that already has the column gives the same values unless an override is asked for, and requests for steps by name or column resolve to the right one.",
  ["inputs", "configurations"],
  "any visit table and order, pole and wrap-around coordinates, degrees/radians, every stacker option",
  "stacker tests mostly compare a few values, several need absent data files",
  [M + "stackers/base_stacker.py", M + "stackers/coord_stackers.py", M + "stackers/date_stackers.py", M + "stackers/general_stackers.py", M + "stackers/label_stackers.py", M + "stackers/n_follow_stacker.py", M + "stackers/teff_stacker.py"],
  [("run/_run with column presence check", M + "stackers/base_stacker.py")])

p("C10", "Visit selection returns exactly the rows and columns asked for",
  "Reading a simulated survey with a constraint returns every row satisfying it and no other, with exactly the requested columns (and those the requested added columns need) at their stored values, in the same way for file paths, "
  "open connections and in-memory sources, for every supported table name. A selection with no rows and a missing file, table or column are reported, and the source is never modified.",
  ["inputs", "configurations"],
  "any table contents, SQL constraints, column lists, stackers, table name, connection kind",
  "tests read one fixed database with one constraint",
  [M + "utils/opsim_utils.py"], [("SQL query assembly", M + "utils/opsim_utils.py")])

p("C11", "Cadence and time-gap metrics equal their definitions for any visit history",
  "Metrics of visit timing (uniformity, template existence, revisit and inter-night gaps, pairs, seasons, visit groups, night counts, nightly and filter-change statistics, rapid revisits and observing efficiency) equal a direct evaluation "
  "of their documented definition on any set of visit times, filters and nights. Row order, time-zero shifts and unrelated columns do not change them, and too few visits give the documented bad value rather than an error.",
  ["inputs", "configurations"],
  "any visit history: ties, single visits, long gaps, unsorted rows, several filters, any option values",
  "tests use one or two regular visit patterns",
  [M + "metrics/cadence_metrics.py", M + "metrics/tgaps.py", M + "metrics/pair_metric.py", M + "metrics/season_metrics.py", M + "metrics/visit_groups_metric.py", M + "metrics/technical_metrics.py", M + "metrics/phase_gap_metric.py"],
  [("sorted-time differences", M + "metrics/cadence_metrics.py")])

p("C12", "Cumulative and histogram metrics track the visits bin by bin",
  "Vector-valued metrics return one entry per bin whose value is the stated statistic of the visits in that bin (histograms) or of all visits up to and including that bin's upper edge (accumulations, coadded depth, uniformity over time, cumulative counts), for any bins and any visits. "
  "Counts are conserved: bins add up to the visits inside the range, cumulative entries never go backwards where the statistic cannot, and the final entry equals the statistic of all visits up to the last edge.",
  ["inputs", "configurations"],
  "any bins (regular, irregular, empty, partly outside the data), any visits and order, any statistic",
  "tests use one hand-made array each",
  [M + "metrics/vector_metrics.py", M + "metrics/cumulative_metric.py", M + "metrics/hourglass_metric.py", M + "metrics/night_pointing_metric.py"],
  [("binned_statistic / cumulative sums", M + "metrics/vector_metrics.py")])

p("C13", "Solar-system metrics agree with each object's own observations",
  "For any population and observation table, each object at each brightness gets exactly its own observations with brightness, signal-to-noise and visibility computed from them, and discovery, arc, activity, color and count metrics equal a direct evaluation "
  "of their definition. Discovery chances need the stated number of nights within the window and visits within a night, and completeness and cumulative summaries follow from the per-object values.",
  ["inputs", "configurations"],
  "any orbit table, any observation table (missing objects, ties, unsorted ids), H range or fixed H, any discovery criterion",
  "tests use one small generated set and fixed criteria; most tests need absent data",
  [M + "slicers/mo_slicer.py", M + "metrics/mo_metrics.py", M + "metrics/mo_summary_metrics.py", M + "stackers/mo_stackers.py", M + "metric_bundles/mo_metric_bundle.py"],
  [("per-object slicing of the observation table", M + "slicers/mo_slicer.py")])

p("C14", "Photometry from spectra and bandpasses is self-consistent",
  "For any spectrum and bandpass, magnitudes and fluxes equal the photon-weighted integral of the spectrum over the bandpass, adding a brightness scale or normalisation gives exactly the requested flux or magnitude, and flux-magnitude, wavelength-frequency and resampling conversions are inverse to each other within sampling accuracy. "
  "Extinction and redshift act multiplicatively as defined at every wavelength, computing many bandpasses together equals computing each alone, files read back what was written, and inputs are never modified.",
  ["inputs", "configurations"],
  "any positive spectrum and throughput on any grid, any normalisation, redshift, extinction",
  "tests use a handful of smooth functions; file-based tests lack data",
  ["rubin_sim/phot_utils/sed.py", "rubin_sim/phot_utils/bandpass.py", "rubin_sim/phot_utils/spectral_resampling.py", "rubin_sim/phot_utils/physical_parameters.py"],
  [("interpolation to a common grid and trapezoid sums", "rubin_sim/phot_utils/sed.py")])

p("C15", "Signal-to-noise, limiting depth and magnitude errors agree with each other",
  "For any bandpass, sky, seeing and instrument settings, a source at the computed limiting depth has the stated signal-to-noise, signal-to-noise computed from spectra and from magnitudes agree, counts and noise scale as defined with exposure time, gain and number of exposures, and brighter sources never have lower signal-to-noise. "
  "Sky scaled to a given depth yields that depth again, magnitude error and signal-to-noise conversions are inverse, and instrument settings keep the values given and reject unknown names.",
  ["inputs", "configurations"],
  "any spectrum, throughput, seeing, exposure, gain, read noise, dark current, systematic floor",
  "tests need absent throughput files, so nothing of this runs today",
  ["rubin_sim/phot_utils/signaltonoise.py", "rubin_sim/phot_utils/photometric_parameters.py", "rubin_sim/phot_utils/predicted_zeropoints.py"],
  [("count-based noise model", "rubin_sim/phot_utils/signaltonoise.py")])

p("C16", "Chebyshev ephemerides reproduce the positions they were fitted to",
  "For any smooth motion, fitted segments cover the requested time span without gap or overlap, and evaluating them at any time inside the span returns positions within the requested tolerance of the underlying positions, with rates, distance, brightness and elongation likewise and the residuals reported truthfully. "
  "Writing and reading coefficients changes nothing, times outside an object's coverage give no value, and each object gets its own answer whatever the order of objects, segments or requests.",
  ["inputs", "configurations", "histories"],
  "any motion (fast, slow, near poles, across RA 0), any segment length, tolerance, order, object set",
  "utility tests use two analytic curves; full-fit tests need the orbit integrator",
  ["rubin_sim/moving_objects/chebyshev_utils.py", "rubin_sim/moving_objects/cheby_fits.py", "rubin_sim/moving_objects/cheby_values.py"],
  [("constrained least-squares fit and Clenshaw evaluation", "rubin_sim/moving_objects/chebyshev_utils.py")])

p("C17", "Orbit tables keep every object's elements intact and are validated",
  "Reading or setting orbits of any supported element format keeps every element value of every object under its own identifier, adds documented defaults only where missing, and recognises the format; orbits with missing, mixed or out-of-range content are rejected and repeated identifiers are reported. "
  "Iterating, indexing by number or range, and comparing select exactly the objects named, equality holds exactly for identical tables, and the caller's table is not modified.",
  ["inputs", "configurations"],
  "any orbit set in any format, file column naming variants, any indexing",
  "orbit tests need absent data files, so none run here",
  ["rubin_sim/moving_objects/orbits.py"], [("validation and per-format column sets", "rubin_sim/moving_objects/orbits.py")])

p("C18", "Generated moving-object observations are exactly the detectable passages",
  "For any orbits and pointing history, the generated observations contain every object-visit pair where the object's position at the visit time lies in the field of view (circle, rectangle or camera footprint) and no other pair, each with that visit's data and the object's position, rates, trailing losses and filter color at that time. "
  "The coarse pre-selection, precomputed positions, batching of objects and order of visits never change the result, nor do RA 0 or pole crossings.",
  ["inputs", "configurations"],
  "any motion within the stated tolerances, any pointing history, any footprint, any settings of coarse step/tolerance",
  "tests need data and the orbit integrator; the selection code is only tested on one fixed field",
  ["rubin_sim/moving_objects/base_obs.py", "rubin_sim/moving_objects/direct_obs.py", "rubin_sim/moving_objects/ooephemerides.py"],
  [("coarse circle cut then exact footprint test", "rubin_sim/moving_objects/direct_obs.py")])

p("C19", "Sky brightness at a point depends only on that point and the conditions",
  "Sky brightness returned for a point equals the interpolation of the tabulated components at its airmass, twilight, moon and zodiacal position and their sum in flux, in every filter, whatever other points are asked for, in which order, in which units, or what was computed before with the same model. "
  "Points beyond the airmass limit and only those have no value, switching components off removes exactly their flux, and asking for spectra, some filters, or all filters gives consistent answers.",
  ["inputs", "configurations", "histories"],
  "any sky positions, times, sun/moon configurations, component switches, airmass limit, repeated use",
  "tests need absent sky data files, so none run here",
  ["rubin_sim/skybrightness/sky_model.py", "rubin_sim/skybrightness/interp_components.py", "rubin_sim/skybrightness/utils.py", "rubin_sim/skybrightness/twilight_func.py"],
  [("multilinear interpolation of component tables", "rubin_sim/skybrightness/interp_components.py")])

p("C20", "Self-calibration recovers the true magnitudes and zeropoints",
  "Generated observations contain exactly the stars in each visit's field, assigned to the detector patch their position falls in, with distinct patches never sharing an identifier, and with magnitudes equal to truth plus the sum of the configured offsets and noise. Solving noiseless, connected observations recovers every star's magnitude and every patch's zeropoint up to one common constant, "
  "independent of row order and identifier values, without modifying the observations.",
  ["inputs", "configurations"],
  "any star and visit sets, offset models, patch layouts, field radius, identifiers, row order",
  "tests run one offset at a time on tiny fixed inputs; nothing checks solutions against truth",
  ["rubin_sim/selfcal/generate_catalog.py", "rubin_sim/selfcal/offsets.py", "rubin_sim/selfcal/solver.py", "rubin_sim/selfcal/star_tools.py"],
  [("sparse least squares", "rubin_sim/selfcal/solver.py")])

p("C21", "Satellite constellation predictions match the generated orbits",
  "Generated constellations have the stated number of satellites at the stated altitude and inclination, spread as defined and in valid element sets that propagate to the stated orbit. For any pointing list, the reported streak lengths and counts per pointing equal a direct geometric evaluation of each satellite's track against that pointing, "
  "only illuminated satellites above the altitude limit count, and results do not depend on how pointings are grouped or ordered.",
  ["inputs", "configurations"],
  "any constellation parameters, pointing lists, field radius, exposure time, limits",
  "tests need an absent ephemeris file, so none run here",
  ["rubin_sim/satellite_constellations/sat_utils.py", "rubin_sim/satellite_constellations/model_observatory.py"],
  [("propagation and segment/circle intersection", "rubin_sim/satellite_constellations/sat_utils.py")])

p("C22", "The visit-sequence metadata store keeps a consistent history",
  "After any history of recording, updating, tagging, commenting, attaching files and querying visit sequences, each query returns exactly the sequences matching it with the latest recorded values; tags, comments, files and night statistics belong to the sequence they were given for, and nothing is lost or duplicated. "
  "An operation that fails leaves the store as it was and later operations work normally, over any number of operations.",
  ["histories", "fault_sequences", "inputs"],
  "any operation sequence including invalid ones, any identifiers, dates, tags, text with special characters, several clients",
  "tests run each operation once on a fresh store with fixed values, and few failures",
  ["rubin_sim/sim_archive/vseqmetadata.py", "sql/make_vseqmeta.sql"],
  [("SQL statements with parameters and transactions", "rubin_sim/sim_archive/vseqmetadata.py")])

p("C23", "Archived visit sequences and files read back exactly",
  "Visits, files and metadata put into a simulation archive come back with identical content, at the location the archive reports, under the right date and identifier, for any archive location form; content hashes depend on the content and only on it. "
  "Listing, finding latest and selecting simulations by date, tag or label returns exactly the ones that match, and existing archived data are never overwritten by a later addition.",
  ["inputs", "histories"],
  "any visit tables, names, dates, file kinds and repeated additions",
  "tests archive one fixed sequence",
  ["rubin_sim/sim_archive/vseqarchive.py", "rubin_sim/sim_archive/sim_archive.py", "rubin_sim/sim_archive/prototype.py"],
  [("path scheme by date/uuid plus metadata", "rubin_sim/sim_archive/vseqarchive.py")])

p("C24", "Pre-night indexes and observing-day arithmetic select the right simulations",
  "The index of pre-night simulations for a day lists exactly the simulations that cover it with their latest metadata, from the database or the archive alike. Conversions between observing-day forms (integer, text, date, time) are inverse to each other for every calendar date, and change exactly at the observatory's day boundary.",
  ["inputs", "histories"],
  "any day form, time near the boundary, any set of simulations",
  "tests query one day in a fixed index",
  ["rubin_sim/sim_archive/prenightindex.py", "rubin_sim/sim_archive/util.py"],
  [("day_obs conversion", "rubin_sim/sim_archive/util.py")])

p("C25", "Shared survey utilities are exact and mutually consistent",
  "Bin-size choice, percentile clipping, coordinate-to-pixel mapping, signal-to-noise and astrometric-error conversions, coaddition, label and name utilities, column maps and run-information helpers equal their documented definitions and inverse relations for any input. Sky maps add exactly their own documented values at each sky point.",
  ["inputs", "configurations"],
  "any arrays, bins, coordinates and names",
  "tests sample single values",
  [M + "utils/maf_utils.py", M + "utils/astrometry_utils.py", M + "utils/output_utils.py", M + "batches/common.py", M + "batches/col_map_dict.py", M + "maps/gal_coords_map.py", M + "maps/dust_map.py"],
  [("pure functions", M + "utils/maf_utils.py")])

p("C26", "Science metrics equal their definitions and depend only on their visits",
  "Astrometric (parallax, proper motion, coverage, DCR), brown-dwarf, extragalactic depth and count, weak-lensing, surface-brightness, AGN, colour-slope, transient, galactic-plane, crowding, template and power-spectrum metrics return the value their documentation defines for any visits, options and column names. Every visit metric gives the same result for the same visits in any order, after any earlier inputs, and with only the columns and maps it declares, and leaves the visits' rows intact.",
  ["inputs", "configurations", "histories"],
  "any visits, slice points, options and column names",
  "tests sample a few single inputs per metric",
  [M + "metrics/calibration_metrics.py", M + "metrics/exgal_m5.py", M + "metrics/weak_lensing_systematics_metric.py", M + "metrics/uniformity_metrics.py", M + "metrics/galactic_plane_metrics.py", M + "metrics/galplane_time_sampling_metrics.py", M + "metrics/transient_metrics.py", M + "metrics/color_slope_metrics.py", M + "metrics/crowding_metric.py", M + "metrics/scaling_metrics.py", M + "metrics/surfb_metric.py", M + "metrics/agnstructure.py", M + "metrics/agn_time_lag_metric.py", M + "metrics/brown_dwarf_metric.py", M + "metrics/incremental_template_metric.py", M + "metrics/qso_number_counts_metric.py", M + "metrics/cosmology_summary_metrics.py"],
  [("a metric object reused at every slice point", M + "metrics/base_metric.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
