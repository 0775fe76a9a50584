"""Writes /verif/properties.jsonl (kept as code so that the file stays valid and diffable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["geotiepoints/" + f for f in files],
                          "state": state or [],
                          "mechanism": [{"name": n, "where": "geotiepoints/" + w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

prop("C01", "Multilinear interpolation blends the corners of the right grid cell",
 "For a regular grid of one to four dimensions (at least two nodes per dimension) and any values on it, interpolating at a point gives the N-linear blend of the values at the corners of the cell holding the point, and outside the grid the linear continuation of the nearest boundary cell, however far outside. Each row of values and each query point gives the same answer whatever else is in the same call. The result has one row per row of values, one column per point, and the floating-point precision asked for.",
 ["inputs", "configurations"], "all dimensions 1-4, node counts, bounds, values, query points inside/on nodes/on faces/outside/far outside, number of value rows, single and double precision, memory layouts of the arguments",
 "One 2-D 5x5 grid with 30 fixed interior points in double precision; the 1-D, 3-D and 4-D kernels, extrapolation and single precision are never run.",
 ["multilinear.py", "multilinear_cython.pyx"],
 [("cell index and barycentric weights per dimension", "multilinear_cython.pyx"), ("MultilinearInterpolator.interpolate", "multilinear.py")],
 ["MultilinearInterpolator(smin, smax, orders, values, dtype)(points)"])

prop("C02", "Approximation grid lists nodes in value order; new values replace old",
 "The grid reported by a multilinear interpolator has one row per dimension (one dimension included) and one column per node, covers the requested bounds end to end with equally spaced nodes, and lists the nodes in the order in which values are expected (last index varying fastest). Sampling any function that is affine in each coordinate on that grid and interpolating reproduces the function everywhere, and sampling any function reproduces it at the nodes. Setting new values any number of times, in any order with queries, makes results depend only on the latest values.",
 ["inputs", "histories"], "all bounds and node counts in 1-4 dimensions, all multi-affine functions, all sequences of set_values / grid / query operations",
 "The single test uses the same node count in both dimensions, symmetric bounds, and sets values once; a swapped axis order on a non-square grid, the 1-D grid or stale state is not sampled.",
 ["multilinear.py", "multilinear_cython.pyx"],
 [("mlinspace", "multilinear.py"), ("MultilinearInterpolator.grid / set_values", "multilinear.py")],
 ["MultilinearInterpolator.grid, .set_values, call"])

prop("C03", "Longitude/latitude and Cartesian coordinates convert back and forth",
 "Converting any longitude/latitude on the globe to Cartesian coordinates gives the point of the sphere of the stated radius at that longitude and latitude, and converting back gives the same place on Earth, for every longitude convention (-180..180 or 0..360), both hemispheres, the poles, the equator, the Greenwich meridian and the exact antimeridian, in single and double precision. Longitudes come back within [-180, 180] and latitudes within [-90, 90], never as not-a-number. Options that choose how latitude is derived (threshold, from z or from x and y) change the result by rounding only.",
 ["inputs", "configurations"], "all points of the sphere including y = 0, x = 0, z = 0 exactly, all array shapes and both precisions, all radius/threshold options",
 "Conversions are exercised only through a few swaths in general position; exact zeros of one Cartesian coordinate, 180 degrees, poles and the threshold latitude are not sampled.",
 ["geointerpolator.py"],
 [("lonlat2xyz", "geointerpolator.py"), ("xyz2lonlat", "geointerpolator.py"), ("to_xyz", "geointerpolator.py")],
 ["geotiepoints.geointerpolator.lonlat2xyz, xyz2lonlat"])

prop("C04", "Interpolated geolocation passes through the tie points",
 "Wherever the fine grid holds a pixel at the position of a tie point, every geographic interpolator returns the longitude and latitude of that tie point (same place on Earth, up to rounding): the generic geographic, grid and spline interpolators, the predefined MODIS and AVHRR functions, the zenith-angle based 5km-to-1km MODIS interpolation for both tie-point widths, and the VII tie-point interpolation. This holds for tie points anywhere on the globe, including the poles and the antimeridian.",
 ["inputs", "configurations"], "all tie-point positions and swath locations/orientations, all grid spacings and interpolation orders, all scan counts, both precisions",
 "Tests compare against recorded fine geolocation of one granule each with tolerances of tens of metres to 0.05 degree, so a systematic shift below that or one in another place on Earth passes.",
 ["geointerpolator.py", "interpolator.py", "__init__.py", "_modis_interpolator.pyx", "viiinterpolator.py", "modisinterpolator.py"],
 [("s=0 splines", "interpolator.py"), ("_get_coords_5km / tie point expansion", "_modis_interpolator.pyx"), ("tie/pixel grids", "viiinterpolator.py")])

prop("C05", "Geolocation results follow rotations and mirrorings of the Earth",
 "Adding any constant to all tie-point longitudes (with or without wrapping them into a 360 degree range) adds the same constant to every interpolated longitude, and leaves latitudes unchanged; negating all latitudes, or all longitudes, negates the interpolated ones. The antimeridian, the Greenwich meridian and the equator therefore have no influence on where pixels land: no pixel is displaced because its swath crosses one of them.",
 ["inputs"], "all swaths and all rotation angles, including those that put a tie point or an interpolated pixel exactly on the antimeridian or Greenwich meridian, for every interpolator that works in Cartesian space",
 "One test shifts one granule by 180 degrees for one MODIS function; exact cancellations on the antimeridian, other interpolators and mirrored swaths are not sampled.",
 ["geointerpolator.py", "_modis_utils.pyx", "_modis_interpolator.pyx", "_simple_modis_interpolator.pyx", "viiinterpolator.py", "__init__.py"],
 [("xyz2lonlat", "geointerpolator.py"), ("xyz2lonlat", "_modis_utils.pyx"), ("_xyz2lonlat", "viiinterpolator.py")])

prop("C06", "Interpolator is the tensor spline of the requested orders",
 "Inside the area covered by the tie points, the generic interpolator returns for each data array the interpolating tensor-product spline of the requested orders (first order along rows, second along columns), or, when rows need no interpolation, the row-by-row spline along columns. It therefore passes through all tie points, reproduces polynomials up to the requested degrees, and treats each data array on its own (data given as integers have fractions in between all the same); the geographic variant does the same to the Cartesian coordinates of the tie points and converts the result to longitude and latitude.",
 ["inputs", "configurations"], "all tie grids (uneven spacing, fractional indices), fine grids within them, spline orders 1-5 in each direction, number of data arrays, precisions, lon/lat tuples or swath definitions as input",
 "Tests never check an interpolated value of the generic interpolator, only the extrapolation helpers and the memory order of the result.",
 ["interpolator.py", "geointerpolator.py"],
 [("Interpolator._interp / _interp1d", "interpolator.py"), ("GeoInterpolator.interpolate", "geointerpolator.py")],
 ["Interpolator(...).interpolate(), GeoInterpolator(...).interpolate()"])

prop("C07", "Border filling continues tie data linearly, chunk by chunk",
 "Filling the borders extends the tie points linearly to the first and last fine column, and to the first and last fine row of every chunk, using only the two nearest tie rows or columns of that chunk; where tie points already lie on a border nothing is added. Afterwards, data that are affine in row and column are reproduced exactly on the whole fine grid, chunk seams included, the order in which the two dimensions are filled does not matter, and with linear along-row order no chunk influences the rows of another. This holds whether rows are indexed in tie units or in fine pixel units.",
 ["inputs", "configurations", "histories"], "all tie/fine grids where ties lie within the fine grid, all chunk sizes dividing the fine rows with at least two tie rows per chunk, orders of fill calls",
 "Tests check private helpers on one 4x5 example (and a pixel-unit example is commented out because it fails); interpolated values after filling and seams are unchecked.",
 ["interpolator.py", "geointerpolator.py"],
 [("fill_borders, _fill_row_borders, _fill_col_borders, _extrapolate_rows, _extrapolate_cols", "interpolator.py")],
 ["Interpolator.fill_borders + interpolate"])

prop("C08", "Predefined swath functions put every pixel at its documented place",
 "The predefined functions (AVHRR 20km to 1km; MODIS 5km to 1km, 1km to 500m, 1km to 250m; and the generic 5km to 1km for arbitrary data) return arrays of the full swath size in which each pixel is the scan-wise cubic-across, linear-along interpolation of the tie points at the instrument's documented tie-point and pixel positions, with linear continuation to the swath and scan edges. Applied to the Cartesian coordinates of a swath, the generic 5km function agrees with the geographic one.",
 ["inputs", "configurations"], "all swath locations, orientations, shapes and scan counts, both precisions; arbitrary data for the generic function",
 "One recorded granule per function with a tolerance of 0.05 degree (5 km, five pixels); AVHRR, 500 m and the generic function are never run.",
 ["__init__.py", "interpolator.py", "geointerpolator.py"],
 [("metop20kmto1km, modis5kmto1km, modis1kmto500m, modis1kmto250m", "__init__.py"), ("generic_modis5kmto1km", "interpolator.py")])

prop("C09", "Each scan is interpolated from its own tie points only",
 "For whiskbroom data the interpolation of a swath equals the interpolations of its scans stacked in order: changing, removing, repeating or reordering scans changes exactly the corresponding output scans and nothing else. This holds for all MODIS functions (old, zenith-angle based, simple) and for the VII interpolation, for any number of scans.",
 ["inputs", "histories"], "all scan contents, counts, permutations and splits of a swath into whole scans",
 "Tests run a fixed two-scan granule as a whole and never compare with scan-wise results.",
 ["_modis_interpolator.pyx", "_simple_modis_interpolator.pyx", "__init__.py", "interpolator.py", "viiinterpolator.py"],
 [("per-scan loops", "_modis_interpolator.pyx"), ("per-scan loop", "_simple_modis_interpolator.pyx"), ("chunk_size in _fill_row_borders", "interpolator.py"), ("pixel_grid_alt", "viiinterpolator.py")])

prop("C10", "Grid and spline interpolators evaluate the chosen scheme at the given points",
 "The grid and spline interpolators return, for each data array independently and in its data type, the value of the chosen scheme (linear by default, other methods and spline degrees on request) at every combination of the given fine row and column positions, which may be fractional, unordered for the grid scheme, and anywhere inside the tie grid; interpolating to a shape means the positions 0, 1, 2, ... in each direction, and interpolating to slices the positions the slices stand for, step included. Positions outside the tie grid raise an error, or are filled or extrapolated when so configured. The geographic variants do this in Cartesian space, accept longitudes/latitudes or a swath definition alike, and return one longitude and one latitude array.",
 ["inputs", "configurations"], "all tie grids, data, fine positions, methods, spline degrees, bounds handling options, number of arrays",
 "Tests use two fixed 5x4 tie grids with integer positions starting at zero.",
 ["interpolator.py", "geointerpolator.py"],
 [("SingleGridInterpolator, SingleSplineInterpolator, Multiple*Interpolator", "interpolator.py"), ("GeoGridInterpolator, GeoSplineInterpolator", "geointerpolator.py")])

prop("C11", "Chunked lazy interpolation equals direct interpolation",
 "Asking a grid or spline interpolator (plain or geographic) for chunked output gives a lazy array with the shape, chunk layout and data type announced, whose computed values equal those of the direct call at the same fine positions and options. This holds for every chunk specification (one size, per-dimension sizes, explicit uneven chunks, whole, automatic), for any fine positions (not only 0, 1, 2, ...), and for computing any part of the array.",
 ["inputs", "configurations", "schedules"], "all chunk specifications, tie grids, fine positions, methods, data types, slices of the lazy result, dask schedulers",
 "Tests chunk two small grids at positions 0..n and compare one of them; fractional or offset positions are never chunked.",
 ["interpolator.py", "geointerpolator.py"],
 [("interpolate_dask, interpolate_slices, _enumerate_chunk_slices", "interpolator.py")])

prop("C12", "Lazy results stay lazy and can be computed together",
 "Creating a chunked result computes nothing, and any number of lazy results, from the same or from different interpolators (other data, tie positions, scheme, degree, bounds handling, fine positions, chunking, call options), can be combined in one computation and each keeps the values it has when computed alone. Computing a lazy result again gives the same values, whatever else has been created or computed in between.",
 ["histories", "configurations"], "all sets and sequences of lazy results from interpolators that agree in some of their settings and differ in others",
 "Tests compute one result at a time, so a task-name collision between two results cannot show.",
 ["interpolator.py", "geointerpolator.py"],
 [("token and name of the task graph in interpolate_dask", "interpolator.py")])

prop("C13", "Zenith-angle MODIS interpolation follows the CVIIRS scheme exactly",
 "For every MODIS conversion (1km to 500m or 250m; 5km to 1km, 500m or 250m, with 271 or 270 tie-point columns) each output pixel is the second-order tie-point interpolation of the CVIIRS user guide, with expansion and alignment corrections derived from the sensor zenith angles of the enclosing cell, applied to the Cartesian corners of that cell, and converted to longitude and latitude. Output has (rows x factor, 1354 x fine pixels per km) pixels, in the precision of the input, for single and double precision alike; finite input gives finite output, also when neighbouring zenith angles are equal or zero.",
 ["inputs", "configurations"], "all lon/lat/zenith fields (any place on Earth, any zenith profile between 0 and 80 degrees), all five conversions, both widths, any number of scans, both precisions, any memory layout",
 "One recorded granule in single precision with distance tolerances from 5 m to 25 km.",
 ["_modis_interpolator.pyx", "_modis_utils.pyx", "modisinterpolator.py"],
 [("MODISInterpolator", "_modis_interpolator.pyx"), ("_compute_expansion_alignment", "_modis_interpolator.pyx")])

prop("C14", "Simple MODIS interpolation is scan-wise bilinear with linear edge continuation",
 "For 1km to 500m and 1km to 250m each output pixel is, scan by scan, the bilinear interpolation in Cartesian space of the 1km positions at column j/f and row (i+0.5)/f-0.5, where f is 2 or 4, continued linearly beyond the first and last row of the scan and beyond the last column, and converted to longitude and latitude. This holds anywhere on Earth, for any number of scans and both precisions; the output has f times the rows and columns of the input.",
 ["inputs", "configurations"], "all lon/lat fields, scan counts, widths (eager input), precisions, memory layouts",
 "One recorded granule in single precision with tolerances of 16 m and 27 m against the true geolocation, which hides errors of that size.",
 ["_simple_modis_interpolator.pyx", "_modis_utils.pyx", "simple_modis_interpolator.py"],
 [("interpolate_geolocation_cartesian", "_simple_modis_interpolator.pyx"), ("_interpolate_xyz_250/500, _extrapolate_xyz_rightmost_columns", "_simple_modis_interpolator.pyx")])

prop("C15", "MODIS results do not depend on the array container or its chunks",
 "The zenith-angle based and simple MODIS functions give the same values for plain arrays (read-only ones too), lazy arrays and labelled arrays (lazy or in memory), whatever the chunk layout of each argument: chunks smaller than, larger than, or not aligned with scans, split columns, and different layouts for different arguments. Lazy input is not computed until the result is, and the lazy result announces exactly the shape, data type and chunks it delivers; labelled input gives labelled output with the same dimension names.",
 ["inputs", "configurations", "schedules"], "all containers and all chunk layouts of the input arrays, all conversions, schedulers, and parts of the result",
 "Tests use one chunk layout (a single 4096 chunk) and never compare containers with each other.",
 ["_modis_utils.pyx", "modisinterpolator.py", "simple_modis_interpolator.py"],
 [("scanline_mapblocks, _rechunk_dask_arrays_if_needed, _call_map_blocks_interp, _results_to_data_arrays", "_modis_utils.pyx")])

prop("C16", "Interpolated MODIS pixels lie where the instrument looked",
 "For a swath produced by the MODIS viewing geometry (a scanning sensor at the Aqua altitude over a spherical Earth, tie points and zenith angles computed for the tie-point lines of sight), anywhere on Earth and for any flight direction, the interpolated fine pixels lie within a small fraction of a pixel of the true ground points of their own lines of sight, over the whole scan width and on scan edges. The zenith-angle based interpolation is at least as accurate as its second-order scheme allows, and clearly more accurate than the simple one away from nadir.",
 ["inputs", "configurations"], "all orbit positions, flight directions and scan counts; 1km to 500m/250m and 5km to 1km conversions of the zenith-angle based, simple and legacy functions",
 "One granule of recorded data at one place; the recorded truth has its own terrain and rounding noise, so tolerances are loose.",
 ["_modis_interpolator.pyx", "_simple_modis_interpolator.pyx", "__init__.py"],
 [("pixel/tie alignment in _get_coords*", "_modis_interpolator.pyx"), ("_compute_yx_coordinate_arrays", "_simple_modis_interpolator.pyx"), ("rows/cols grids", "__init__.py")])

prop("C17", "Compiled kernels write every output pixel and stay inside their arrays",
 "Every element returned by the compiled MODIS and multilinear routines is determined by the arguments alone, never by previous contents of memory, and while running they read and write only inside the arrays they were given or allocated. This holds for every accepted input size and layout, and also for inputs they reject.",
 ["inputs", "configurations"], "all accepted and rejected shapes, scan counts, widths, layouts, dimensions and extreme values, under a memory-error detector and with memory pre-filled with different patterns",
 "Tests run without a memory checker, with bounds checks compiled out, and on freshly mapped (zeroed) memory, where reading unset elements goes unnoticed.",
 ["_modis_interpolator.pyx", "_simple_modis_interpolator.pyx", "_modis_utils.pyx", "multilinear_cython.pyx"],
 [("boundscheck=False memoryview kernels over np.empty buffers", "_modis_interpolator.pyx"), ("tie point expansion", "_modis_interpolator.pyx"), ("cell index clamp", "multilinear_cython.pyx")])

prop("C18", "Malformed tie-point input is refused, not interpolated",
 "Input that cannot be interpolated meaningfully raises an error instead of returning numbers: arrays given to the zenith-angle based and simple MODIS functions that are not two-dimensional, do not consist of whole scans, do not have the full instrument width where the scheme depends on it, or differ in shape from each other; tie-point data that do not fit their tie-point grid; VII arrays whose rows are not whole scans or whose shapes or dimensions differ; multilinear queries, values or dimensions that do not fit the grid or exceed four dimensions; geographic data that are neither lon/lat nor a swath definition; unknown border dimensions. The refusal does not depend on the array container.",
 ["inputs", "configurations"], "all wrong row counts, widths, shape mismatches, dimensionalities and argument counts, in every container",
 "Tests try one wrong row count with lazy input, one VII mismatch and one argument count; eager input and widths are not tried.",
 ["_modis_utils.pyx", "_modis_interpolator.pyx", "_simple_modis_interpolator.pyx", "viiinterpolator.py", "multilinear.py", "multilinear_cython.pyx", "geointerpolator.py", "interpolator.py"],
 [("shape checks in scanline_mapblocks and interpolate", "_modis_utils.pyx"), ("ValueError in tie_points_interpolation", "viiinterpolator.py"), ("to_xyz argument count", "geointerpolator.py")])

prop("C19", "VII tie-point interpolation is bilinear within each scan",
 "For any tie-point factor, scans per granule and tie points per scan, each pixel of the VII interpolation is the bilinear interpolation of the four tie points of its own scan around it, pixels that fall between the last tie row of one scan and the first of the next do not appear, and the output has (tie rows per scan - 1) x factor rows per scan and (tie columns - 1) x factor columns. All arrays of the list are interpolated independently and in order, keep their dimension names, and lazy arrays give the same values as in-memory ones.",
 ["inputs", "configurations"], "all data, granule sizes, scans, tie points per scan (two or more), factors, numbers of arrays, dimension names, precisions, lazy and in-memory arrays",
 "One 6x4 array with factor 2, of which two edges are compared.",
 ["viiinterpolator.py"], [("tie_points_interpolation", "viiinterpolator.py")])

prop("C20", "VII geolocation interpolates on the globe when lon/lat would mislead",
 "VII geolocation is interpolated in longitude and latitude when the granule stays at or below the latitude threshold and spans at most 180 degrees of longitude, and otherwise in Cartesian coordinates, so that granules near the poles or across the antimeridian come out right; thresholds given by the caller are honoured. Cartesian results are the bilinear interpolation of the tie points' Cartesian coordinates converted back to longitudes within [-180, 180] and latitudes, and never contain invalid numbers for valid input, also exactly on the antimeridian or at a pole. Missing tie points have no part in the choice.",
 ["inputs", "configurations"], "all granule positions, either longitude convention, latitudes around and on the threshold in both hemispheres, thresholds, scan layouts, lazy and in-memory arrays",
 "Three fixed granules; southern high latitudes, non-default thresholds, pole and exact antimeridian are not sampled.",
 ["viiinterpolator.py"], [("to_cart decision, _lonlat2xyz, _xyz2lonlat", "viiinterpolator.py")])

prop("C21", "Using several processes does not change the result",
 "The MODIS 1km to 500m and 250m functions give the same arrays for any number of worker processes as for one, for any number of scans, including fewer scans than processes. The scene splits they rely on fall on scan boundaries, are strictly increasing, lie inside the swath and leave no part empty, for any swath length, scan length and process count. Swaths that one process refuses are refused by several, and no process outlives the call.",
 ["inputs", "configurations", "schedules"], "all scan counts and process counts (also equal to, above and not dividing each other), swath contents, completion orders of the workers",
 "One swath of fixed size with 4 processes, compared at 0.05 degree; one scene-split example.",
 ["__init__.py"], [("get_scene_splits", "__init__.py"), ("_multi", "__init__.py")])

prop("C22", "Interpolation is pure: inputs stay untouched and history has no effect",
 "No interpolation call or interpolator construction changes the arrays passed to it, which may be read-only, and the result of a call depends only on its arguments (for an interpolator object: on its construction and border filling), not on earlier calls, on the order of calls, on other interpolator objects, or on what the caller did with earlier results. Repeating a call gives identical values.",
 ["histories", "inputs"], "all sequences of calls over all public functions and interpolator objects, with inputs of changing size, precision, layout and writability, and with earlier results overwritten in between",
 "Each test makes one call on fresh data and never looks at its inputs again or repeats a call.",
 ["__init__.py", "interpolator.py", "geointerpolator.py", "multilinear.py", "viiinterpolator.py", "_modis_interpolator.pyx", "_simple_modis_interpolator.pyx", "_modis_utils.pyx"],
 [("fresh buffers per call", "_modis_interpolator.pyx"), ("grid cache", "multilinear.py"), ("tie_data list copy", "interpolator.py")])

prop("C23", "Concurrent calls give the same results as calls made one after another",
 "Calls to the interpolation functions from several threads at once, with the same or different arguments, return exactly what each returns alone, and so does evaluating lazy results on a multi-threaded scheduler. Sharing one interpolator object between threads that only query it is safe in the same way for the grid, spline and multilinear interpolators.",
 ["schedules", "inputs"], "all interleavings of concurrent calls over the compiled and pure-Python functions, with differing sizes and conversions",
 "The package releases the GIL and declares free-threading support, but no test runs two calls at the same time.",
 ["_modis_interpolator.pyx", "_simple_modis_interpolator.pyx", "_modis_utils.pyx", "multilinear_cython.pyx", "multilinear.py", "interpolator.py"],
 [("nogil kernels with per-call buffers", "_modis_interpolator.pyx"), ("nogil kernels", "multilinear_cython.pyx")])

prop("C24", "Basic satellite interpolator fills the grid bilinearly",
 "For tie points on increasing row and column positions starting at zero, the basic interpolator returns latitude and longitude arrays reaching to the last row and column position, that equal the tie points at their positions and the linear interpolation along rows, then along columns, in between. Latitude comes first, and each field is interpolated on its own.",
 ["inputs"], "all increasing integer row and column positions starting at zero, evenly or unevenly spaced, and all tie data",
 "No test touches this class.",
 ["basic_interpolator.py"], [("BasicSatelliteInterpolator.interpolate", "basic_interpolator.py")])

prop("C25", "Missing tie points stay missing, and only locally",
 "A tie point marked invalid (not-a-number longitude, latitude or zenith angle) makes invalid the output pixels whose interpolation uses it, never a plausible-looking number there, and leaves all pixels outside the cells touching it exactly as they would be without it. This holds for the zenith-angle based and simple MODIS functions, for VII interpolation (cells of the granule's tie-point grid; where missing points do not change the choice between lon/lat and Cartesian interpolation), and for linear grid interpolation.",
 ["inputs"], "all positions and patterns of invalid tie points (scan corners, edges, whole rows, whole scans, everything), all conversions",
 "No test feeds an invalid tie point.",
 ["_modis_interpolator.pyx", "_simple_modis_interpolator.pyx", "_modis_utils.pyx", "viiinterpolator.py", "interpolator.py"],
 [("cell-wise interpolation", "_modis_interpolator.pyx"), ("map_coordinates order=1", "_simple_modis_interpolator.pyx"), ("interp", "viiinterpolator.py")])

prop("C26", "Single and double precision agree, and precision is kept",
 "Interpolating single-precision tie points gives the same places on Earth as interpolating the same numbers in double precision, to within a few metres everywhere on the globe, Greenwich meridian, antimeridian and poles included. The MODIS, grid, spline and multilinear interpolators return the precision of their input (or the one asked for).",
 ["inputs", "configurations"], "all interpolators that accept both precisions, all swath positions",
 "MODIS tests use single precision only, others mostly double; the two are never compared.",
 ["_modis_interpolator.pyx", "_simple_modis_interpolator.pyx", "_modis_utils.pyx", "geointerpolator.py", "interpolator.py", "viiinterpolator.py", "multilinear.py"],
 [("fused floating kernels", "_modis_interpolator.pyx"), ("astype(values.dtype)", "interpolator.py"), ("xyz2lonlat", "geointerpolator.py")])

prop("C27", "Lazy results and interpolators work in other processes and as copies",
 "A lazy result (chunked output of a grid or spline interpolator, MODIS functions on lazy or labelled lazy arrays, VII interpolation of lazy arrays) can be evaluated by any scheduler - synchronous, threads, several processes - or sent to another process and evaluated there, alone or together with any other lazy results, and has the values it has when made and computed alone. Interpolator objects of every kind can be deep-copied, and pickled and restored, here or in another process, at any point of their life: the copy answers like the original would, and what is done to it later leaves the original alone.",
 ["histories", "configurations", "schedules"], "all kinds of lazy results and interpolators, their arguments, combinations, schedulers, ways of copying, and what was done before and after copying",
 "No test uses a process scheduler, pickles or copies anything.",
 ["_modis_utils.pyx", "interpolator.py", "geointerpolator.py", "multilinear.py", "viiinterpolator.py"],
 [("_map_blocks_handler", "_modis_utils.pyx"), ("interpolate_dask", "interpolator.py"), ("_work_with_lonlats", "geointerpolator.py")])

prop("C28", "Part of a lazy result costs only its part of the work",
 "Computing part of a lazy result does only the work of the chunks it touches. The MODIS functions, given lazy arrays, load only the input rows of the scans asked for, up to the neighbouring chunks, and the part has the values the scans give on their own; their lazy results are chunked in whole scans, about as finely along the swath as the input (never more than twice its largest chunk, or two scans). Chunked grid and spline interpolation evaluates only the positions of the chunks touched.",
 ["inputs", "configurations"], "all swath lengths, chunk layouts (aligned with scans or not, uneven, split columns), conversions, parts asked for, fine grids and chunk sizes",
 "No test computes part of a lazy result or looks at what is loaded.",
 ["_modis_utils.pyx", "interpolator.py"],
 [("_rechunk_dask_arrays_if_needed", "_modis_utils.pyx"), ("_call_map_blocks_interp", "_modis_utils.pyx"), ("interpolate_dask", "interpolator.py")])

prop("C29", "Tie points may come in any array container",
 "The generic, geographic, grid, spline, basic and multilinear interpolators, the predefined swath functions and the coordinate conversions give the same values whether their tie-point arrays come as plain arrays of any memory layout (C or Fortran order, every second element, reversed, read-only, memory-mapped), as lazy arrays in any chunks, as labelled arrays (in memory or lazy, with or without coordinates), or as a mixture of these; the MODIS functions do so for every memory layout of plain arrays, and the VII functions for every memory layout inside labelled arrays.",
 ["inputs", "configurations"], "all interpolators and functions, their arguments, and all combinations of containers for their inputs",
 "Tests use C-ordered plain arrays, and lazy or labelled ones in a few fixed calls.",
 ["interpolator.py", "geointerpolator.py", "multilinear.py", "__init__.py", "_modis_utils.pyx", "_modis_interpolator.pyx", "viiinterpolator.py"],
 [("AbstractSingleInterpolator", "interpolator.py"), ("lonlat2xyz", "geointerpolator.py"), ("metop20kmto1km", "__init__.py")])

prop("C30", "Work leaves nothing behind",
 "A process can interpolate granule after granule: interpolators made, used and dropped, one interpolator asked again and again, conversions called with other data each time, lazy results dropped before they are computed, and calls that are refused leave no memory (Python objects, arrays, native allocations), threads, open files or processes behind that keep growing with the number of calls.",
 ["histories", "inputs"], "all histories of such calls on all interpolators and functions, with all kinds of inputs",
 "Tests make each call once and never look at what stays behind.",
 ["interpolator.py", "geointerpolator.py", "basic_interpolator.py", "multilinear.py", "multilinear_cython.pyx", "_modis_interpolator.pyx", "_simple_modis_interpolator.pyx", "_modis_utils.pyx", "modisinterpolator.py", "viiinterpolator.py", "__init__.py"],
 [("AbstractSingleInterpolator", "interpolator.py"), ("multilinear_interpolation", "multilinear_cython.pyx"), ("scanline_mapblocks", "_modis_utils.pyx")])

prop("C31", "Memory grows in step with the data",
 "The memory an interpolation, an interpolator's construction and use, or a coordinate conversion needs at its peak grows at most in proportion to its data: when the scans, tie rows, tie columns, fine rows, fine columns or query points become some times as many, and so input and output become at most that many times as large, so does the peak (and a constant). No step needs memory for all pairs of rows, columns, tie points or pixels; long and narrow, or short and wide data are no exception.",
 ["inputs", "configurations"], "all interpolators and functions, shapes of data, spline degrees, with borders filled or not, plain, lazy or labelled data, and factors of growth",
 "Tests use small or fixed-size arrays and never look at memory.",
 ["interpolator.py", "geointerpolator.py", "basic_interpolator.py", "multilinear.py", "_modis_interpolator.pyx", "_simple_modis_interpolator.pyx", "_modis_utils.pyx", "viiinterpolator.py", "__init__.py"],
 [("Interpolator", "interpolator.py"), ("interpolate_numpy", "interpolator.py"), ("tie_points_interpolation", "viiinterpolator.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
