"""Writes properties.jsonl (kept as a script so that the text is easy to review)."""
import json, os

P = []


def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=(), state=None):
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["src/tatc/" + f for f in files],
            "mechanism": [{"name": n, "where": "src/tatc/" + w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    }
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": "src/tatc/" + c} for a, b, c in state]
    P.append(d)


p("C01", "Observations are exactly the periods in which the point is in view",
  "For a ground point (any latitude, longitude, elevation), a satellite in a near-circular orbit and an analysis period, the collected observations are exactly the maximal sub-periods during which the satellite is above the minimum elevation angle implied by the instrument's field of regard at the satellite altitude at the period start: none missed, invented, merged or duplicated, including passes cut by the period's start or end and permanent visibility, and a period with no view gives no rows. "
  "Only passes at least as long as the instrument's minimum access time, whose sunlight requirements hold at the middle of the pass and (for a pointed instrument) whose instantaneous footprint then contains the point, are kept. "
  "Each row carries the point, satellite and instrument identity, start and end of the pass (or a window of the fixed access time centred on the pass), the mid-pass epoch, and the satellite's true elevation and azimuth seen from the point at that epoch.",
  "all points on the globe x near-circular LEO/MEO/geosynchronous orbits x fields of regard up to 360 deg x access-time and sunlight requirements x periods starting or ending inside a pass",
  "The tests sample one ISS-like orbit, one point and one day and compare row counts or single values; they never compare the set of intervals with an independently computed visibility history.",
  ["analysis/coverage.py", "schemas/orbit.py", "utils.py"],
  [("pairing of rise/set events", "analysis/coverage.py:_get_visible_interval_series"), ("filters and record construction", "analysis/coverage.py:collect_observations"), ("event search", "schemas/orbit.py:TwoLineElements.get_observation_events")],
  observe=["collect_observations result"])

p("C02", "Solar angles and sunlight requirements follow the Sun's actual position",
  "Wherever sunlight information is reported for observations, orbit tracks, ground tracks or ground pixels (satellite sunlit flag, solar altitude/azimuth, local solar time, solar beta angle) it agrees with the direction of the Sun and the Earth's shadow at that time and place. "
  "The validity flag of a sample is true exactly when every stated requirement (satellite sunlit or eclipsed; target - the point actually viewed - sunlit or dark) holds, with no requirement meaning always valid. "
  "Omitting solar output never changes the other columns.",
  "all times of year, orbits, targets and the nine combinations of sunlight requirements",
  "The ephemeris is absent in the test environment and the remaining tests check one combination at one instant.",
  ["schemas/instrument.py", "analysis/coverage.py", "analysis/track.py"],
  [("validity", "schemas/instrument.py:Instrument.is_valid_observation"), ("solar columns", "analysis/coverage.py:collect_observations"), ("solar columns and beta", "analysis/track.py:collect_orbit_track")],
  observe=["valid_obs, sat_sunlit, solar_* columns"])

p("C03", "Multi-satellite observations are the sorted union over members and instruments",
  "Collecting observations for a list of satellites and constellations returns exactly the union of what each member satellite observes with each of its instruments - nothing lost, duplicated or attributed to another member - ordered by start time with a fresh zero-based index. "
  "A single satellite may be passed instead of a list, and the satellite options (such as omitting solar output) apply to every member.",
  "all lists of satellites/constellations with one or several instruments each, including members that observe nothing",
  "The tests use at most two satellites and check a length; they cannot quantify over member and instrument mixes.",
  ["analysis/coverage.py", "schemas/satellite.py"],
  [("nested collection and concatenation", "analysis/coverage.py:collect_multi_observations"), ("members", "schemas/satellite.py:*.generate_members")],
  over=("inputs", "configurations"), observe=["collect_multi_observations result"])

p("C04", "Aggregated observations merge overlaps and conserve access and revisit time",
  "Aggregating observations merges, per point, every group of observations that overlap (or touch) in time into one row spanning from the earliest start to the latest end, with the mean of their epochs and naming all merged satellites and instruments, whatever the order of the input rows; merged rows of a point are disjoint, chronological, and cover exactly the union of the input periods. "
  "Access equals end minus start, revisit equals the gap since the previous end of the same point (undefined for the first), and points never influence each other. "
  "Reducing gives, per point, the mean access, the mean of the defined revisits and the number of aggregated observations.",
  "all finite sets of observations over several points with nested, touching, identical and out-of-order periods",
  "The tests aggregate a handful of satellite passes; nested and chained overlaps, shuffled rows and many points are never produced.",
  ["analysis/coverage.py"],
  [("overlap grouping", "analysis/coverage.py:aggregate_observations"), ("per-point means", "analysis/coverage.py:reduce_observations")],
  observe=["aggregate_observations / reduce_observations results"])

p("C05", "Gridding weights every point by its samples and never mixes cells",
  "Gridding reduced observations or reduced latencies assigns each point to the cell(s) that contain it; a cell's sample count is the sum of its points' samples and its access, revisit and latency are the sample-weighted means of its points' values. "
  "Cells with no points are absent when there is any data, all cells are returned with zero samples when there is no data, and each returned cell keeps its identifier and geometry.",
  "all sets of reduced points with arbitrary sample counts and all cell sets, in any row order",
  "The tests grid one or two points, where weighting and alignment mistakes are invisible.",
  ["analysis/coverage.py", "analysis/latency.py"],
  [("weighted dissolve", "analysis/coverage.py:grid_observations"), ("weighted dissolve", "analysis/latency.py:grid_latencies")],
  observe=["grid_observations / grid_latencies results"])

p("C06", "Downlink opportunities are exactly the station contacts",
  "For any set of ground stations and a satellite in a near-circular orbit, the collected downlinks are exactly the maximal periods in which the satellite is above each station's own minimum elevation angle, clipped to the analysis period and at least as long as that station's minimum access time. "
  "Rows name the right station, location and satellite, carry start, mid-contact epoch and end, and are in order of start time with a fresh index.",
  "all station sets (including duplicates at one site and different masks) x near-circular orbits x periods",
  "The tests use one or two stations with one orbit and check existence of rows.",
  ["analysis/latency.py", "analysis/coverage.py"],
  [("contact intervals", "analysis/latency.py:collect_downlinks"), ("pairing of rise/set events", "analysis/coverage.py:_get_visible_interval_series")],
  observe=["collect_downlinks result"])

p("C07", "Latency is measured to the first downlink after each observation",
  "For every observation, the reported downlink is the earliest contact of the same satellite that starts at or after the observation's end; latency is that contact's epoch minus the observation's epoch, and an observation without such a contact is kept with no station, downlink time or latency. "
  "Exactly one row is returned per observation, ordered by observation epoch, with the observation's own point, geometry, instrument and viewing angles; without any observation or any downlink at all the result is empty. "
  "Reducing gives per point the mean of the defined latencies and the number of observations.",
  "all finite sets of observations and downlinks of several satellites, in any row order, including ties and observations overlapping a contact",
  "The tests use one satellite and a few rows; matching by satellite, ties and missing contacts are not exercised over general histories.",
  ["analysis/latency.py"],
  [("as-of matching", "analysis/latency.py:compute_latencies"), ("mean", "analysis/latency.py:reduce_latencies")],
  over=("inputs", "histories"), observe=["compute_latencies / reduce_latencies results"])

p("C08", "Orbit tracks report the propagated state at each requested time",
  "An orbit track has one row per requested time, in order, whose geometry is the satellite's propagated position at that time in the requested frame (geodetic longitude/latitude/height, Earth-fixed, or inertial) and, when asked, its velocity in the matching frame (Earth-fixed for geodetic), with the swath width of the chosen instrument at the satellite's height and the requested target elevation. "
  "A mask keeps exactly the samples whose sub-satellite point lies inside it, unchanged and in the same order; an empty list of times or a mask never reached gives an empty result.",
  "all orbits, time lists (any length, spacing and order), frames, outputs, instruments, target elevations and masks",
  "Tests check counts at one orbit and never compare positions, velocities or swath widths with an independent propagation, nor masks with sub-satellite points.",
  ["analysis/track.py", "schemas/orbit.py"],
  [("track construction and masking", "analysis/track.py:collect_orbit_track"), ("propagation", "schemas/orbit.py:TwoLineElements.get_orbit_track")],
  observe=["collect_orbit_track result"])

p("C09", "Ground-track footprints cover exactly what the instrument can view",
  "Each ground-track sample is the region of the instrument's view around that sample at the requested elevation: for a projected coordinate system the disc of the swath diameter around the sub-satellite point measured in that system, for the geometric option the projected view; regions crossing the antimeridian or containing a pole are represented by valid pieces within longitude +-180 and latitude +-90 that cover the same ground. "
  "There is one sample per requested time, and the reported satellite elevation and azimuth refer to the viewed target. "
  "A mask returns exactly the samples that reach the mask, each clipped to it, whatever the latitude or the kind of mask given.",
  "all near-circular orbits (polar, antimeridian-crossing), fields of regard, elevations, coordinate systems (equidistant cylindrical, UTM/UPS, geometric) and masks",
  "The tests check the number of rows for one orbit away from poles and antimeridian.",
  ["analysis/track.py", "utils.py"],
  [("sampling, buffering, masking", "analysis/track.py:collect_ground_track"), ("buffer in projected CRS", "utils.py:buffer_footprint"), ("antimeridian/pole splitting", "utils.py:split_polygon")],
  observe=["collect_ground_track result"])

p("C10", "Aggregated ground tracks are the union of the valid samples",
  "The aggregated ground track built from points covers exactly the union of the footprints of the valid samples; built from lines it contains the footprint of every valid sample position and of the path between consecutive valid samples of an orbit, and nothing farther than half a swath from the sub-satellite path, across antimeridian crossings and gaps in validity. "
  "Without merging orbits there is one region per orbit period since the first sample (per contiguous valid stretch of it for lines); with merging there is a single region equal to their union; a mask restricts the result to the mask.",
  "all orbits, samplings over several revolutions, sunlight requirements, methods, coordinate systems and merge options",
  "The tests check that the call returns; the union is never compared with the samples.",
  ["analysis/track.py"],
  [("dissolve / line buffering", "analysis/track.py:compute_ground_track")],
  observe=["compute_ground_track result"])

p("C11", "Ground pixels lie on the detector grid of the pointed instrument",
  "For a rectangular pointed instrument every sample time yields one ground point per pixel, ordered across-track then along-track, located where the ray through that pixel's place on the evenly divided (and overlap-compressed) detector grid around the pointed boresight meets the ellipsoid at the requested elevation: across-track index grows towards the positive-roll side and along-track index from fore to aft, and the grid is centred on the boresight. "
  "Viewing and solar angles refer to the individual pixel, a mask keeps exactly the pixels inside it, and other kinds of instrument are rejected.",
  "all detector layouts (odd/even pixel counts, overlap), pointing angles, orbits and masks",
  "Tests cover one instrument looking at nadir and check counts.",
  ["schemas/instrument.py", "analysis/track.py", "utils.py"],
  [("cone and clock angle", "schemas/instrument.py:PointedInstrument.get_pixel_cone_and_clock_angle"), ("pixel projection", "schemas/instrument.py:PointedInstrument.compute_projected_pixel_position"), ("records", "analysis/track.py:collect_ground_pixels")],
  observe=["collect_ground_pixels result", "compute_footprint_pixel_array result"])

p("C12", "Projected rays, footprints and limbs match the viewing geometry",
  "A projected ray lands on the ellipsoid raised by the requested elevation, at the first intersection of the line of sight, in the direction given by pitch (towards the velocity), roll (towards the right-hand side normal) and the position on the edge of the elliptical or rectangular field of view; a ray missing the Earth lands on the visible limb in that direction. "
  "A footprint is the polygon through the edge rays (rectangular ones reach all four corners), its centre is the boresight intersection, and the limb is the set of ellipsoid points where the line of sight is tangent. "
  "Vector calls equal the scalar calls sample by sample.",
  "all satellite states moving level relative to the ground, fields of view up to the full disc, pointing angles whose boresight meets the Earth, elevations and point counts",
  "Tests compute a few footprints and check the type.",
  ["utils.py", "schemas/instrument.py"],
  [("ray", "utils.py:compute_projected_ray_position"), ("footprint", "utils.py:compute_footprint"), ("limb", "utils.py:compute_limb")],
  observe=["compute_projected_ray_position, compute_footprint, compute_limb results"])

p("C13", "Dilution of precision matches the satellite geometry",
  "For every requested time the dilution of precision equals the selected root of the diagonal of the inverse normal matrix built from unit lines of sight (local horizontal/vertical plus clock) to exactly the satellites at or above the minimum elevation seen from the point at its elevation. "
  "It is undefined when the number of visible satellites does not exceed the required minimum count or the geometry is singular; rows are indexed by the requested times and located at the point; the order of satellites is irrelevant.",
  "all constellations, points, elevation masks, times, the five measures and minimum counts",
  "One GPS-like sample is compared in tests; the relation to geometry at arbitrary points, counts and measures is not.",
  ["analysis/dop.py"],
  [("normal matrix", "analysis/dop.py:compute_dop")],
  observe=["compute_dop result"])

p("C14", "Radio occultation events are exactly the grazing arcs in range",
  "Every radio occultation event is a maximal run of consecutive sample times during which the straight receiver-transmitter line passes its lowest point between the two satellites, with that tangent point's height inside the elevation range and the transmitter's yaw within the limit fore or aft of the receiver; all such runs for every transmitter are reported, ordered by sample time. "
  "Each event lists the geodetic tangent points of its samples, and its position, pitch, yaw, azimuth and time belong to the sample whose tangent height is closest to the requested sample elevation; an event is rising when the transmitter is ahead of the receiver at its first sample.",
  "all receiver/transmitter orbits, sample spacings, yaw limits and elevation ranges",
  "There is no test of radio occultation.",
  ["analysis/ro_coverage.py"],
  [("tangent point and arc segmentation", "analysis/ro_coverage.py:_collect_ro_series"), ("records", "analysis/ro_coverage.py:collect_ro_observations")],
  over=("inputs", "histories"), observe=["collect_ro_observations result"])

p("C15", "Generated sample points are complete, unique and inside the mask",
  "A Fibonacci lattice has the number of points for the typical distance, no point at a pole, and spreads points evenly (equal counts per equal area up to rounding); an equally spaced grid has its points at the centres of square angular steps starting at longitude -180 and latitude -90. "
  "Points carry the requested elevation, unique identifiers that do not depend on the mask, and longitudes within +-180 (or continuing past 180 when the mask does). "
  "A mask returns exactly the unmasked points lying in it, and an invalid mask is rejected.",
  "all distances, elevations and valid masks (convex or not, multi-part, with holes)",
  "Tests use two distances and one rectangular mask.",
  ["generation/points.py", "utils.py"],
  [("lattice", "generation/points.py:generate_fibonacci_lattice_points"), ("grid", "generation/points.py:_generate_equally_spaced_points"), ("identifiers", "generation/points.py:_compute_equally_spaced_point_id")],
  observe=["generate_*_points results"])

p("C16", "Generated cells tile the region without overlap and match the points",
  "Equally spaced cells are aligned to the global grid, do not overlap, tile the global range (up to half a step at the eastern and northern edge) and have unique identifiers equal to those of the equally spaced points at their centres for the same distance; each such point lies in the cell of its identifier. "
  "With a mask, exactly the cells whose centre lies in the mask's bounding box and that touch the mask are returned, each the convex hull of its part inside the mask; latitude or longitude strips span the full mask (or globe) in the other direction.",
  "all distances, elevations, strip options and valid masks",
  "Tests use two distances and one rectangular mask, where hulls, alignment and identifiers coincide.",
  ["generation/cells.py", "generation/points.py"],
  [("cells", "generation/cells.py:_generate_equally_spaced_cells"), ("identifiers", "generation/points.py:_compute_equally_spaced_point_id")],
  observe=["generate_equally_spaced_cells result"])

p("C17", "Two-line elements are accepted iff well formed, and read back faithfully",
  "A two-line element list is accepted exactly when it holds whole pairs of 69-character lines in the standard layout with correct checksums and chronological epochs, and anything else is rejected with a validation error. "
  "Every accessor returns the value encoded in the corresponding columns of the selected pair, including signs, exponents, blank-padded and alphanumeric catalogue fields and two-digit years on both sides of 1957, consistently with the values the propagator uses.",
  "all well-formed element sets, all single-character corruptions of them, and lists of several sets",
  "Tests read one ISS element set and two malformed lists.",
  ["schemas/orbit.py", "utils.py"],
  [("validators", "utils.py:is_valid_tle"), ("chronology", "utils.py:is_chronological_tle"), ("accessors", "schemas/orbit.py:TwoLineElements.get_*")],
  observe=["TwoLineElements construction and accessors"])

p("C18", "Orbits convert to element sets that carry the specified orbit",
  "Converting a circular, Keplerian, sun-synchronous, Molniya or Tundra orbit to two-line elements yields elements with the specified inclination, node, perigee, eccentricity, epoch, mean anomaly (Kepler's equation, to the accuracy of a fourth-order series) and period, whose propagated state at epoch is at the specified altitude (perigee altitude for Molniya) and place in the orbit. "
  "A sun-synchronous orbit has the inclination that makes the node follow the Sun and crosses the equator at the requested local solar time in the requested direction. "
  "Out-of-range orbit parameters are rejected.",
  "all valid parameter values of every orbit type, epochs over decades",
  "Tests check a few parameters of one orbit per type against stored numbers, and the sun-synchronous ones cannot run without the ephemeris.",
  ["schemas/orbit.py", "utils.py"],
  [("element export", "schemas/orbit.py:*.to_tle"), ("sun-synchronous node/inclination", "schemas/orbit.py:SunSynchronousOrbit"), ("Molniya/Tundra shape", "schemas/orbit.py:MolniyaOrbit")],
  observe=["to_tle result and propagated state"])

p("C19", "Walker and train constellations have the prescribed phasing",
  "A Walker constellation of T satellites in P planes with relative spacing F has T members filling planes in order, planes separated by 360/P (delta) or 180/P (star) degrees of node, in-plane spacing of 360/ceil(T/P) and inter-plane phase of 360 F/T degrees of mean anomaly relative to the lead orbit; a train has members that follow the lead by the interval, each over the same ground track when requested. "
  "Members keep the lead's shape, epoch, period and (independent copies of) instruments and get unique zero-padded names; a derived orbit differs from its source only by the requested changes of mean anomaly and node, for every orbit type and any (negative or multi-turn) offset. "
  "Impossible plane counts or spacings are rejected.",
  "all T, P, F, both configurations, intervals, lead orbit types and offsets",
  "Tests cover a couple of constellations with a circular or TLE lead and compare few members.",
  ["schemas/satellite.py", "schemas/orbit.py"],
  [("Walker members", "schemas/satellite.py:WalkerConstellation.generate_members"), ("train members", "schemas/satellite.py:TrainConstellation.generate_members"), ("derived orbits", "schemas/orbit.py:*.get_derived_orbit")],
  over=("inputs", "configurations"), observe=["generate_members / get_derived_orbit results"])

p("C20", "Mutual orbiting groups and streets of coverage have the designed geometry",
  "Members of a mutual orbiting group circle the moving reference satellite once per revolution, equally spaced in phase, with along-track and cross-track extents equal to the requested parallel and transverse axes, in the requested sense, at the reference altitude and epoch. "
  "A streets-of-coverage constellation has the fewest whole planes and satellites per plane for which footprints of the requested swath width, at the requested relative packing of centres, close the ring in the plane and around the equator, arranged as a Walker delta pattern keeping orbit, name and instruments.",
  "all circular reference orbits, axis lengths, senses, member counts, swath widths and packings",
  "No test covers mutual orbiting groups; one checks a streets-of-coverage count.",
  ["schemas/satellite.py"],
  [("mutual orbit members", "schemas/satellite.py:MOGConstellation.generate_members"), ("ring closure counts", "schemas/satellite.py:SOCConstellation.generate_walker")],
  over=("inputs", "configurations"), observe=["generate_members / generate_walker results"])

p("C21", "With several element sets every time uses the closest one",
  "For an orbit with several element sets, the state at any time - one at a time or in a list of any order - is that of the set whose epoch is closest to it, and visibility events over a period are found with the closest set throughout, switching half-way between epochs, so observations, downlinks, tracks and dilution of precision all agree with it. "
  "A single element set behaves as if it were used for all times.",
  "all chronological lists of element sets (equal epochs included) and all times/periods before, between and after the epochs",
  "Tests use one multi-element orbit and a few times.",
  ["schemas/orbit.py"],
  [("closest index", "schemas/orbit.py:TwoLineElements.get_closest_tle_index"), ("timeline partition", "schemas/orbit.py:TwoLineElements.partition_by_tle_index"), ("track / events", "schemas/orbit.py:TwoLineElements.get_orbit_track")],
  observe=["get_orbit_track, get_observation_events results"],
  state=[("tle_epochs", "cached epochs of the element sets", "schemas/orbit.py:TwoLineElements.__dict__")])

p("C22", "Repeat cycles are genuine and repeat the Earth-fixed pattern",
  "A reported repeat cycle is a time after the epoch at which the Earth-fixed position and velocity return to their initial values within the configured tolerances, the earliest such overhead return within the search duration; if none exists there is none. "
  "When repeat tracks are enabled and a cycle exists, the Earth-fixed state at any time before or after the epoch equals that one or more whole cycles earlier/later within the first cycle; visibility events over longer periods are those of the first cycle repeated each cycle and none after the end; when disabled, plain propagation is used.",
  "all orbits with and without resonance, tolerances, search durations, times before/after the epoch and periods of several cycles",
  "Tests compute one repeat cycle.",
  ["schemas/orbit.py", "config.py"],
  [("search", "schemas/orbit.py:TwoLineElements.get_repeat_cycle"), ("folding", "schemas/orbit.py:TwoLineElements.get_orbit_track"), ("event repetition", "schemas/orbit.py:TwoLineElements.get_observation_events")],
  over=("inputs", "configurations"), observe=["get_repeat_cycle, get_orbit_track, get_observation_events results"],
  state=[("repeat_cycle", "cached repeat cycle", "schemas/orbit.py:TwoLineElements.__dict__")])

p("C23", "Sensor-geometry conversions are exact on the sphere and mutually inverse",
  "Field of regard, swath width, field of view at a look angle, and minimum elevation angle are related by spherical-Earth trigonometry at the given altitude and target elevation: each conversion satisfies the law of sines of the viewing triangle, converting back and forth returns the original value, all are monotone, and fields of regard beyond the visible disc (up to 360 degrees) saturate at the horizon. "
  "Instrument helpers give the same values.",
  "all altitudes above the target elevation, angles up to 360 degrees and swaths up to the horizon",
  "Tests compare a few stored numbers.",
  ["utils.py", "schemas/instrument.py"],
  [("conversions", "utils.py:swath_width_to_field_of_regard ... compute_min_elevation_angle"), ("instrument helpers", "schemas/instrument.py:Instrument.get_swath_width")],
  observe=["conversion results"])

p("C24", "Splitting a polygon keeps its ground coverage and stays on the map",
  "Splitting (or normalizing) a valid polygon or multi-polygon given with longitudes in +-180 whose edges take the short way round, possibly crossing the antimeridian, enclosing a pole (its outline going round the pole once in order of longitude), or running past +-90 degrees of latitude, returns valid polygons within longitude +-180 and latitude +-90 that cover the same ground; polygons that need no splitting are returned unchanged. "
  "Holes are preserved when nothing is split, multi-polygons are treated part by part, other columns and rows of a table (possibly empty, whatever its geometry column is called) are kept, the caller's geometry is not modified, and an invalid polygon is rejected by normalization.",
  "all simple polygons and polygon tables (convex or not) whose edges span less than 180 degrees of longitude, any orientation and starting vertex",
  "Tests use a few boxes.",
  ["utils.py"],
  [("antimeridian", "utils.py:_split_polygon_antimeridian"), ("poles", "utils.py:_split_polygon_north_pole / _south_pole"), ("normalization", "utils.py:normalize_geometry")],
  observe=["split_polygon / normalize_geometry results"])

p("C25", "Analyses are pure: same inputs, same results, inputs untouched",
  "Any analysis or generation function called again with equal inputs - in any order, after other calls on the same objects, on a copy or on a reloaded object - returns the same result, and never modifies the satellites, points, time lists or tables passed to it. "
  "Changing an orbit's fields by assignment, or copying it with changes, changes all derived values accordingly: cached values are never stale, with lazy loading on or off (a repeat cycle found by an earlier search is by design reused by later searches while lazy loading is on).",
  "all interleavings of analysis calls, field updates, copies and cache settings over shared objects",
  "Tests call each function once on fresh objects; caching and mutation need histories of calls.",
  ["schemas/orbit.py", "analysis/coverage.py", "analysis/latency.py", "analysis/track.py", "utils.py"],
  [("lazy-loaded values", "schemas/orbit.py:LazyLoadModel"), ("copies before aggregation", "analysis/coverage.py:reduce_observations")],
  over=("histories", "inputs", "configurations"), observe=["results of repeated calls, deep snapshots of arguments"],
  state=[("tle / tle_epochs / repeat_cycle", "values cached on orbit objects", "schemas/orbit.py:*.__dict__")])

p("C26", "Mission descriptions survive saving and loading, and bad ones are rejected",
  "Any valid point, station, instrument, orbit, satellite, constellation or architecture written to JSON (or a plain dictionary) and read back is equal to the original - same concrete type, same instruments including pointed ones, same derived members - and is unaffected by caches filled before saving. "
  "A description with a value outside its documented range, of the wrong kind, or missing a required entry is rejected with a validation error.",
  "all valid model instances, and all single-field violations of the documented ranges",
  "Tests build a few models; round trips across the union types and boundary values are not covered.",
  ["schemas/satellite.py", "schemas/architecture.py", "schemas/instrument.py", "schemas/point.py", "schemas/orbit.py"],
  [("discriminated unions", "schemas/satellite.py:SpaceSystem"), ("architecture members", "schemas/architecture.py:Architecture"), ("field bounds", "schemas/*.py")],
  over=("inputs", "histories"), observe=["model_dump(_json) / model_validate(_json)"])

p("C27", "Configuration files load completely or are refused, and settings take effect",
  "Loading a configuration file returns exactly the given settings with documented defaults for the rest, or raises the configuration error - for a missing, unreadable, malformed, wrongly typed or out-of-range file - and never anything else or a partial result. "
  "The active settings govern the default number of footprint points, repeat-cycle search and use, and lazy loading, and explicit arguments override them.",
  "all file contents (text and binary) and all valid setting values",
  "There are no configuration tests.",
  ["config.py", "utils.py", "schemas/orbit.py"],
  [("loading", "config.py:load_yaml_config"), ("use of settings", "utils.py:compute_footprint"), ("use of settings", "schemas/orbit.py:TwoLineElements.get_repeat_cycle")],
  over=("inputs", "configurations"), observe=["load_yaml_config result or exception"])

p("C28", "Orbital kinematics helpers agree with Kepler and the rotating Earth",
  "True and mean anomaly conversions agree with Kepler's equation to the accuracy of a low-order eccentricity series and are inverse to each other for small eccentricity, on every revolution; orbit period, mean ground velocity, access time and along-track distance follow from the circular-orbit angular rate and the Earth's rotation for prograde and retrograde inclinations, and distance/time conversions are inverse. "
  "The maximum access time bounds every pass above the minimum elevation in a circular low orbit, and the number of global samples corresponds to the Earth's area divided by the area of a cap of the given diameter.",
  "all altitudes, inclinations, anomalies, small eccentricities, distances and times",
  "Tests compare stored numbers at one or two arguments.",
  ["utils.py"],
  [("anomaly series", "utils.py:mean_anomaly_to_true_anomaly / true_anomaly_to_mean_anomaly"), ("rates", "utils.py:compute_orbit_period, compute_ground_velocity, ..."), ("samples", "utils.py:compute_number_samples")],
  observe=["conversion results"])

p("C29", "Having nothing to report is a well-formed answer",
  "When there is nothing to report - no times, no satellites, stations or transmitters, nothing in view or long enough, no valid sample, nothing inside the mask, or an empty table from the stage before - an analysis does not fail but returns an empty table in EPSG:4326 with the same columns (optional track outputs aside) as when there is something to report; dilution of precision is undefined (NaN) at every time when no satellite is given or visible; gridding returns every cell with zero samples and no value. "
  "Every later stage accepts the empty table, and combining it with a non-empty result of the same analysis keeps that result's rows, values, reference system and column kinds (boolean, integer, float, time, duration).",
  "all analyses x all ways of having nothing to report x options",
  "Tests check emptiness or a length of one or two results; none checks the columns of an empty result or feeds it on.",
  ["analysis/coverage.py", "analysis/latency.py", "analysis/track.py", "analysis/ro_coverage.py", "analysis/dop.py"],
  [("empty tables", "analysis/coverage.py:_get_empty_coverage_frame, _get_empty_aggregate_frame, _get_empty_reduce_frame"), ("empty tables", "analysis/latency.py:_get_empty_*_frame"), ("empty tracks", "analysis/track.py:_get_empty_orbit_track, _get_empty_ground_track"), ("empty occultations", "analysis/ro_coverage.py:_get_empty_ro_frame")],
  over=("inputs", "configurations"), observe=["results of every analysis with nothing to report"])

p("C30", "Buffered targets and footprints reach exactly as far as stated",
  "Buffering a target geometry for culling yields exactly the ground within (distance travelled over the ground in one time step plus half the swath width) times the scaling factor, measured in the stated distance system - to within the documented 5 % simplification; buffering a track point or line into a footprint yields exactly the ground within half the swath width in the given system, at the requested elevation. Both hold across the antimeridian and the poles, and the result stays on the map. "
  "Projecting a region to an elevation sets the height of every vertex, including those of holes and of every part, and changes nothing else.",
  "all targets (points, lines, polygons with holes, multi-polygons), altitudes, inclinations, fields of regard, time steps, scalings, distance systems",
  "Tests never call these helpers with a geometry near the antimeridian or a pole, with holes, or with a scaling, and compare no distances.",
  ["utils.py"],
  [("target buffer", "utils.py:buffer_target"), ("footprint buffer", "utils.py:buffer_footprint"), ("elevation", "utils.py:project_polygon_to_elevation")],
  observe=["buffer_target, buffer_footprint, project_polygon_to_elevation results"])

p("C31", "The same request stated another way gets the same answer",
  "The answer depends on what is asked, not on how it is written down. Times given as a list, tuple, array or time index, in any time zone or mix of zones, in any order, all at once or one by one, give the same rows (for the same times). "
  "A mask given as polygon, multi-polygon, series or table, starting at another vertex or drawn in the other direction, gives the same rows. A satellite given by its elements, by the element set it converts to, by its own saved form, with the epoch in another zone or with the instrument at another position gives the same rows, as do options given by name or by enumeration member, a single satellite or a list of one, a list split into parts and joined, and whole numbers in place of equal real ones. "
  "Masked results are exactly the unmasked rows that meet the mask, whatever the instrument points at.",
  "all equivalent statements of times, masks, satellites, options and numbers for orbit tracks, ground tracks, ground pixels, aggregated tracks, dilution of precision, radio occultation, observations, downlinks and generated points and cells",
  "Tests state each request in one way only; a relation between two statements of a request is never tested.",
  ["analysis/track.py", "analysis/coverage.py", "analysis/dop.py", "analysis/ro_coverage.py", "analysis/latency.py", "schemas/orbit.py"],
  [("time handling and mask culling", "analysis/track.py:collect_ground_track"), ("mask culling", "analysis/track.py:_get_utm_epsg_code"), ("orbit conversion", "schemas/orbit.py:*.to_tle"), ("satellite lists", "analysis/coverage.py:collect_multi_observations"), ("satellite lists", "analysis/dop.py:compute_dop")],
  observe=["results of every analysis function for two statements of one request"])

p("C32", "Work spread over threads or processes gives the same answers",
  "Analyses run at the same time in several threads on shared satellites, points, time lists and tables - the documented way of covering many points - return what each of them returns when run alone on new objects, wherever one thread is interrupted by another: values cached on first use are never seen unfinished, no call borrows global settings or scratch space, and none modifies its arguments. "
  "The same holds for work handed to other processes, by a copy of the process or by sending the pickled arguments and the answer.",
  "all sets of concurrent analysis calls over shared cold or warm objects, cache settings and schedules with switches between any two statements",
  "Tests run in one thread; a race needs a switch at a particular statement of a first call on a shared object.",
  ["schemas/orbit.py", "analysis/coverage.py", "analysis/latency.py", "analysis/track.py", "analysis/dop.py", "utils.py"],
  [("cached element set", "schemas/orbit.py:*.to_tle"), ("cached epochs", "schemas/orbit.py:TwoLineElements.get_closest_tle_index"), ("cached repeat cycle", "schemas/orbit.py:TwoLineElements.get_repeat_cycle")],
  over=("schedules", "inputs", "configurations"), observe=["results of concurrent calls, settings and arguments afterwards"],
  state=[("tle / tle_epochs / repeat_cycle", "values cached on shared orbit objects", "schemas/orbit.py:*.__dict__")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
