"""Grid and spline interpolators evaluate the chosen scheme at the given points."""
import dask.array as da
import numpy as np
from geotiepoints import geointerpolator, interpolator
from hypothesis import strategies as st
from scipy.interpolate import PchipInterpolator

from lib import gen, models
from lib.core import Sub, as_np, call, check_close, check_shape, must_raise, require

MIN_SIZE = {"linear": 2, "nearest": 2, "slinear": 2, "pchip": 4, "cubic": 4, "quintic": 6}


@st.composite
def axis(draw, size, scheme, outside):
    tie = draw(gen.positions(size))
    if draw(st.integers(0, 3)) == 0:
        tie = [float(i) for i in range(size)]
    span = tie[-1] - tie[0]
    kind = draw(st.sampled_from(["fraction", "fraction", "ties", "integers", "dense"]))
    if kind == "ties":
        fine = [tie[i] for i in draw(st.lists(st.integers(0, size - 1), min_size=1, max_size=6))]
    elif kind == "integers":
        fine = [float(i) for i in range(int(np.ceil(tie[0])), int(np.floor(tie[-1])) + 1)][:30] or [tie[0]]
    elif kind == "dense":
        fine = [float(v) for v in np.linspace(tie[0], tie[-1], draw(st.integers(2, 25)))]
    else:
        fine = [tie[0] + span * p / 1000.0 for p in draw(st.lists(st.integers(0, 1000), min_size=1, max_size=8))]
    fine = [min(max(v, tie[0]), tie[-1]) for v in fine]
    if outside:
        for p in draw(st.lists(st.sampled_from([-0.1, -0.7, 1.05, 1.6]), min_size=0, max_size=2)):
            fine.append(tie[0] + span * p)
    if scheme == "spline":
        fine = sorted(set(fine))
    return tie, fine


@st.composite
def configs(draw, geo=False):
    scheme = draw(st.sampled_from(["grid", "grid", "spline"]))
    conf = {"scheme": scheme}
    if scheme == "grid":
        if geo:
            method = draw(st.sampled_from(["linear", None, "slinear"]))
        else:
            method = draw(st.sampled_from(["linear", "linear", None, None, "nearest", "slinear", "pchip", "cubic",
                                           "quintic"]))
        conf["method"] = method
        conf["at_call"] = method is not None and draw(st.integers(0, 3)) == 0
        least = MIN_SIZE[method or "linear"]
        sizes = [draw(st.integers(least, least + 5)) for _ in range(2)]
        bounds = ["error"]
        if method in (None, "linear", "nearest"):
            bounds = ["default", "error", "nan", "number", "extrapolate"]
        conf["bounds"] = draw(st.sampled_from(bounds))
        if geo and conf["bounds"] == "number":
            conf["bounds"] = "extrapolate"
        outside = conf["bounds"] in ("nan", "number", "extrapolate")
    else:
        conf["kx"], conf["ky"] = draw(st.integers(1, 5)), draw(st.integers(1, 5))
        conf["default"] = draw(st.integers(0, 3)) == 0    # degree not given: cubic
        if conf["default"]:
            conf["kx"] = conf["ky"] = 3
        sizes = [draw(st.integers(max(conf[k], 1) + 1, conf[k] + 6)) for k in ("kx", "ky")]
        outside = False
    conf["rows"], conf["frows"] = draw(axis(sizes[0], scheme, outside))
    conf["cols"], conf["fcols"] = draw(axis(sizes[1], scheme, outside))
    conf["ints"] = draw(st.booleans())
    conf["points"] = draw(st.sampled_from(["tuple", "list"]))
    return conf


def arrays_of(conf):
    out = [np.array(conf[k], dtype=float) for k in ("rows", "cols", "frows", "fcols")]
    if conf["ints"]:
        out = [a.astype(int) if np.array_equal(a, np.floor(a)) else a for a in out]
    return out


def options(conf):
    """Keyword arguments for the construction and for the call."""
    if conf["scheme"] == "spline":
        return ({} if conf["default"] else {"kx": conf["kx"], "ky": conf["ky"]}), {}
    init, at_call = {}, {}
    if conf["method"]:
        # the method of the call replaces that of the construction
        (at_call if conf["at_call"] else init)["method"] = conf["method"]
    if conf["bounds"] == "error":
        init["bounds_error"] = True
    elif conf["bounds"] == "nan":
        init["bounds_error"] = False
    elif conf["bounds"] == "number":
        init.update(bounds_error=False, fill_value=-7.5)
    elif conf["bounds"] == "extrapolate":
        init.update(bounds_error=False, fill_value=None)
    return init, at_call


def nearest_candidates(tie, fine):
    """Index of the nearest tie position, and of the runner-up where both are equally near (up to rounding)."""
    dist = np.abs(np.asarray(tie)[None, :] - np.asarray(fine)[:, None])
    order = np.argsort(dist, axis=1)
    first, second = order[:, 0], order[:, 1]
    close = np.take_along_axis(dist, order[:, 1:2], 1)[:, 0] - np.take_along_axis(dist, order[:, :1], 1)[:, 0]
    span = float(np.ptp(tie))
    return first, np.where(close < 1e-9 * span, second, first)


def expected_values(conf, data, rows, cols, frows, fcols):
    """List of acceptable results (more than one where positions are half way, for nearest)."""
    rows, cols, frows, fcols = (np.asarray(a, float) for a in (rows, cols, frows, fcols))
    data = np.asarray(data, float)
    if conf["scheme"] == "spline":
        return [models.tensor_spline(rows, cols, data, frows, fcols, conf["kx"], conf["ky"])]
    method = conf["method"] or "linear"
    if method in ("linear", "slinear"):
        res = [models.bilinear(rows, cols, data, frows, fcols)]
    elif method == "nearest":
        ri, rj = nearest_candidates(rows, frows), nearest_candidates(cols, fcols)
        res = [data[np.ix_(a, b)] for a in ri for b in rj]
    elif method == "pchip":
        tmp = PchipInterpolator(cols, data, axis=1)(fcols)
        res = [PchipInterpolator(rows, tmp, axis=0)(frows)]
    else:
        k = {"cubic": 3, "quintic": 5}[method]
        res = [models.tensor_spline(rows, cols, data, frows, fcols, k, k)]
    if conf["bounds"] in ("nan", "number"):
        out = ((frows < rows[0]) | (frows > rows[-1]))[:, None] | ((fcols < cols[0]) | (fcols > cols[-1]))[None, :]
        fill = np.nan if conf["bounds"] == "nan" else -7.5
        res = [np.where(out, fill, r) for r in res]
    return res


@st.composite
def cases(draw):
    return {"conf": draw(configs()), "n": draw(st.integers(1, 3)), "seed": draw(gen.seeds), "dtype": draw(gen.dtypes),
            "klass": draw(st.sampled_from(["single", "multiple", "multiple"])),
            "layout": draw(st.sampled_from(["C", "F", "strided", "readonly", "dask"])),
            "lists": draw(st.sampled_from([False, False, True])), "scale": draw(st.sampled_from([1.0, 300.0, 1e6]))}


def check(case, rec):
    conf = case["conf"]
    rows, cols, frows, fcols = arrays_of(conf)
    rng = np.random.default_rng(case["seed"])
    dtype = np.dtype(case["dtype"])
    n = 1 if case["klass"] == "single" else case["n"]
    arrays = [(rng.normal(size=(len(rows), len(cols))) * case["scale"] ** (1 if k == 0 else 0)).astype(dtype)
              for k in range(n)]
    given = [da.from_array(a, chunks=2) if case["layout"] == "dask" else gen.layout(a, case["layout"]) for a in arrays]
    init, at_call = options(conf)
    points = (rows, cols) if conf["points"] == "tuple" else [rows, cols]
    fine = [frows.tolist(), fcols.tolist()] if case.get("lists") else [frows, fcols]
    fine = tuple(fine) if conf["points"] == "tuple" else fine
    name = ("Single" if case["klass"] == "single" else "Multiple") + (
        "Grid" if conf["scheme"] == "grid" else "Spline") + "Interpolator"
    interp = call(getattr(interpolator, name), points, *given, **init)
    res = call(interp.interpolate, fine, **at_call)
    res = [res] if case["klass"] == "single" else call(list, res)
    require(len(res) == n, "%d results for %d arrays" % (len(res), n))
    iterative = conf.get("method") in ("cubic", "quintic")
    eps = 1e-10 if dtype == np.float64 else 3e-6
    if iterative:
        eps = 1e-3       # scipy solves the spline equations iteratively
    amp = 1 + max(np.abs(frows - rows[0]).max() / np.ptp(rows), np.abs(fcols - cols[0]).max() / np.ptp(cols)) ** 2 * 4
    for num, (got, data) in enumerate(zip(res, arrays)):
        check_shape(as_np(got), (len(frows), len(fcols)), "result %d" % num)
        require(as_np(got).dtype == dtype, "result dtype %s for data of %s" % (as_np(got).dtype, dtype))
        options_ = expected_values(conf, data, rows, cols, frows, fcols)
        best = np.array(options_[0], dtype=float)
        for other in options_[1:]:
            use = np.abs(np.asarray(got) - other) < np.abs(np.asarray(got) - best)
            best = np.where(use, other, best)
        finite = best[np.isfinite(best)]
        scale = max(float(np.abs(data).max()), float(np.abs(finite).max()) if finite.size else 0.0)
        worst = check_close(got, best, eps * scale * amp, "%s array %d (%s)" % (name, num, {**init, **at_call}))
        rec.notes["relative error %s %s" % (conf.get("method") if conf["scheme"] == "grid" else "spline", dtype)] \
            = worst / scale / amp
    unordered = list(frows) != sorted(frows)
    fractional = bool(set(map(float, frows)) - set(map(float, rows)))
    rec.label(conf["scheme"], conf.get("method") or ("default" if conf["scheme"] == "grid" else "kx=%d" % conf["kx"]),
              conf.get("bounds", "inside"), case["klass"], case["dtype"])
    if unordered:
        rec.label("unordered positions")
    if (frows.min() < rows[0]) or (fcols.max() > cols[-1]):
        rec.label("positions outside")
    rec.mark(fractional or unordered)


@st.composite
def outside_cases(draw):
    conf = draw(configs())
    while conf["scheme"] != "grid":
        conf = draw(configs())
    conf = dict(conf, bounds=draw(st.sampled_from(["default", "error"])))
    axis_ = draw(st.sampled_from(["rows", "cols"]))
    return {"conf": conf, "axis": axis_, "where": draw(st.sampled_from(["low", "high"])),
            "by": draw(st.sampled_from([1e-3, 0.5, 3.0])), "seed": draw(gen.seeds), "index": draw(st.integers(0, 50)),
            "klass": draw(st.sampled_from(["Single", "Multiple", "Geo"]))}


def check_outside(case, rec):
    conf = case["conf"]
    rows, cols, frows, fcols = (np.asarray(a, float) for a in arrays_of(conf))
    frows, fcols = np.clip(frows, rows[0], rows[-1]), np.clip(fcols, cols[0], cols[-1])
    tie, fine = (rows, frows) if case["axis"] == "rows" else (cols, fcols)
    fine[case["index"] % len(fine)] = tie[0] - case["by"] if case["where"] == "low" else tie[-1] + case["by"]
    init, at_call = options(conf)
    data = np.random.default_rng(case["seed"]).uniform(-50, 50, size=(len(rows), len(cols)))
    if case["klass"] == "Geo":
        interp = call(geointerpolator.GeoGridInterpolator, (rows, cols), data, data / 2, **init)
    else:
        interp = call(getattr(interpolator, case["klass"] + "GridInterpolator"), (rows, cols), data, **init)
    must_raise(lambda: tuple(interp.interpolate((frows, fcols), **at_call)))
    rec.label(case["klass"], case["axis"], case["where"], str(conf["method"]))
    rec.mark()


@st.composite
def shape_cases(draw):
    scheme = draw(st.sampled_from(["Grid", "Spline"]))
    kind = draw(st.sampled_from(["Multiple", "Geo", "slices"]))
    rows = draw(st.integers(4, 7))
    cols = draw(st.integers(4, 7))
    step = [draw(st.integers(1, 5)), draw(st.integers(1, 5))]
    return {"scheme": scheme, "kind": kind, "rows": rows, "cols": cols, "step": step, "seed": draw(gen.seeds),
            "part": [draw(st.integers(0, 1000)) for _ in range(4)], "lon0": draw(gen.lons),
            "shape_type": draw(st.sampled_from(["tuple", "list"])),
            "strides": [draw(st.sampled_from([None, 1, 2, 3, 7])) for _ in range(2)]}


def check_shape_calls(case, rec):
    rows, cols = np.arange(case["rows"]) * case["step"][0], np.arange(case["cols"]) * case["step"][1]
    rng = np.random.default_rng(case["seed"])
    # a shape inside the tie grid
    shape = [1 + case["part"][0] % (rows[-1] + 1), 1 + case["part"][1] % (cols[-1] + 1)]
    start = [case["part"][2] % shape[0], case["part"][3] % shape[1]]
    shape = [int(s) for s in shape]
    frows, fcols = np.arange(shape[0]), np.arange(shape[1])
    arg = tuple(shape) if case["shape_type"] == "tuple" else shape
    conf = {"scheme": case["scheme"].lower(), "method": None, "bounds": "default", "kx": 3, "ky": 3}
    rec.label(case["scheme"], case["kind"])
    rec.mark(max(case["step"]) > 1)
    if case["kind"] == "Geo":
        swath = {"kind": "tangent", "lon0": case["lon0"], "lat0": 50.0, "az": case["seed"] % 360, "sr": 1.0, "sc": 1.0,
                 "bend": 0.2, "ar": 0.5, "ac": 0.5}
        lon, lat = gen.make_swath(swath, len(rows), len(cols))
        interp = call(getattr(geointerpolator, "Geo%sInterpolator" % case["scheme"]), (rows, cols), lon, lat)
        res = call(interp.interpolate_to_shape, arg)
        require(len(res) == 2, "%d results" % len(res))
        xyz = [expected_values(conf, c, rows, cols, frows, fcols)[0] for c in models.lonlat2xyz(lon, lat)]
        models.check_places_xyz(res[0], res[1], xyz, 1e-3, "interpolate_to_shape")
        return
    data = rng.normal(size=(len(rows), len(cols)))
    expected = expected_values(conf, data, rows, cols, frows, fcols)[0]
    if case["kind"] == "Multiple":
        interp = call(getattr(interpolator, "Multiple%sInterpolator" % case["scheme"]), (rows, cols), data, data * 2)
        res = call(lambda: list(interp.interpolate_to_shape(arg)))
        require(len(res) == 2, "%d results for two arrays" % len(res))
        check_close(res[0], expected, 1e-9, "interpolate_to_shape")
        check_close(res[1], 2 * expected, 1e-9, "interpolate_to_shape, second array")
    else:
        interp = call(getattr(interpolator, "Single%sInterpolator" % case["scheme"]), (rows, cols), data)
        strides = case.get("strides", [None, None])
        slices = tuple(slice(int(a), b, c) for a, b, c in zip(start, shape, strides))
        rec.label("strides" if any(c not in (None, 1) for c in strides) else "no strides")
        res = call(interp.interpolate_slices, slices)
        check_close(res, expected[slices], 1e-9, "interpolate_slices")


@st.composite
def geo_cases(draw):
    return {"conf": draw(configs(geo=True)), "dtype": draw(gen.dtypes),
            "box": draw(st.sampled_from(["array", "array", "readonly", "list", "dask"])), "definition": draw(st.integers(0, 3)) == 0,
            "swath": draw(gen.swaths(step=draw(st.sampled_from([(1.0, 1.0), (0.1, 0.2)]))))}


def check_geo(case, rec):
    conf = case["conf"]
    rows, cols, frows, fcols = arrays_of(conf)
    lon, lat = gen.make_swath(case["swath"], len(rows), len(cols))
    init, at_call = options(conf)
    if case["definition"]:
        from pyresample import SwathDefinition
        dtype = np.dtype("float64")
        args = (SwathDefinition(lon, lat),)
    else:
        dtype = np.dtype(case["dtype"])
        lon, lat = lon.astype(dtype), lat.astype(dtype)
        box = case.get("box", "array")
        if box == "list":
            dtype = np.dtype("float64")
        args = {"array": (lon, lat), "readonly": (gen.layout(lon, "readonly"), gen.layout(lat, "readonly")),
                "list": (lon.tolist(), lat.tolist()),
                "dask": (da.from_array(lon, chunks=2), da.from_array(lat, chunks=(-1, 1)))}[box]
    klass = geointerpolator.GeoGridInterpolator if conf["scheme"] == "grid" else geointerpolator.GeoSplineInterpolator
    interp = call(klass, (rows, cols), *args, **init)
    res = call(interp.interpolate, (frows, fcols), **at_call)
    require(len(res) == 2, "%d results" % len(res))
    xyz = [expected_values(conf, c, rows, cols, frows, fcols)[0] for c in models.lonlat2xyz(lon, lat)]
    valid = np.isfinite(xyz[0])
    flon, flat = as_np(res[0]), as_np(res[1])
    check_shape(flon, (len(frows), len(fcols)), "longitude")
    check_shape(flat, (len(frows), len(fcols)), "latitude")
    require(bool(np.isnan(flon[~valid]).all() and np.isnan(flat[~valid]).all()), "positions outside are not missing")
    f64 = dtype == np.float64
    if not f64:
        require(flon.dtype == dtype and flat.dtype == dtype, "result dtypes %s and %s" % (flon.dtype, flat.dtype))
    near = np.sqrt(sum(c ** 2 for c in xyz))[valid] / models.R_EARTH
    rel = np.abs(xyz[2][valid] / models.R_EARTH)
    on_globe = (near > 0.5) & (near < 1.5) & (rel < 1.2)
    tol = np.where(on_globe, 1e-3 if f64 else 80.0, np.inf)
    ratio = models.check_places_xyz(flon[valid], flat[valid], [c[valid] for c in xyz], tol, "geographic %s %s" % (
        conf["scheme"], {**init, **at_call}), fuzz=1e-9 if f64 else 1e-5)
    rec.notes["metres/tolerance " + str(dtype)] = ratio
    rec.label(conf["scheme"], "swath definition" if case["definition"] else "lon/lat", conf.get("bounds", "inside"))
    special = gen.classify(rec, lon, lat)
    rec.mark(special > 0 or bool(case["swath"].get("noise")))


@st.composite
def large_cases(draw):
    scheme = draw(st.sampled_from(["grid", "grid", "spline"]))
    size = st.one_of(st.integers(2, 12), st.integers(100, 420), st.sampled_from([255, 256, 257, 300]))
    return {"scheme": scheme, "ties": [max(draw(size), 4), max(draw(size), 4)],
            "fine": [draw(st.sampled_from([1, 7, 200, 700])), draw(st.sampled_from([3, 130, 600, 2500]))],
            "kind": draw(st.sampled_from(["even", "irregular", "irregular"])), "start": draw(st.sampled_from([0.0, -70.0, 1e4])),
            "geo": draw(st.integers(0, 2)) == 0, "k": draw(st.integers(1, 3)), "dtype": draw(gen.dtypes),
            "order": draw(st.sampled_from(["up", "down", "mixed"])), "seed": draw(gen.seeds),
            "swath": draw(gen.swaths(step=(0.05, 0.05), noise=False))}


def check_large(case, rec):
    """Tie grids and results of hundreds of rows and columns."""
    rng = np.random.default_rng(case["seed"])
    points, fine = [], []
    for n, m in zip(case["ties"], case["fine"]):
        gaps = np.full(n - 1, 5.0) if case["kind"] == "even" else rng.uniform(0.5, 3, n - 1)
        tie = case["start"] + np.concatenate([[0], np.cumsum(gaps)])
        pos = np.concatenate([rng.uniform(tie[0], tie[-1], m), tie[[0, -1]]])
        pos.sort()
        if case["scheme"] == "grid" and case["order"] != "up":
            pos = pos[::-1].copy() if case["order"] == "down" else rng.permutation(pos)
        points.append(tie)
        fine.append(pos)
    conf = {"scheme": case["scheme"], "method": None, "bounds": "default", "kx": case["k"], "ky": case["k"]}
    kwargs = {} if case["scheme"] == "grid" else {"kx": case["k"], "ky": case["k"]}
    dtype = np.dtype(case["dtype"])
    name = "GridInterpolator" if case["scheme"] == "grid" else "SplineInterpolator"
    rec.label(case["scheme"], "geographic" if case["geo"] else "plain", case["dtype"], case["kind"],
              "more than 256 ties" if max(case["ties"]) > 256 else "fewer ties")
    rec.mark(max(case["ties"]) >= 100)
    if case["geo"]:
        lon, lat = (a.astype(dtype) for a in gen.make_swath(case["swath"], *case["ties"]))
        res = call(lambda: list(getattr(geointerpolator, "Geo" + name)(tuple(points), lon, lat, **kwargs).interpolate(fine)))
        require(len(res) == 2, "%d results" % len(res))
        xyz = [expected_values(conf, c, *points, *fine)[0] for c in models.lonlat2xyz(lon, lat)]
        models.check_places_xyz(res[0], res[1], xyz, 1e-3 if dtype == np.float64 else 80.0, "geographic " + name,
                                fuzz=1e-9 if dtype == np.float64 else 1e-5)
        return
    arrays = [rng.normal(size=case["ties"]).astype(dtype), rng.normal(size=case["ties"]).astype(dtype)]
    res = call(lambda: list(getattr(interpolator, "Multiple" + name)(tuple(points), *arrays, **kwargs).interpolate(fine)))
    require(len(res) == 2, "%d results for two arrays" % len(res))
    for num, (got, data) in enumerate(zip(res, arrays)):
        want = expected_values(conf, data, *points, *fine)[0]
        worst = check_close(got, want, (1e-9 if dtype == np.float64 else 1e-5) * max(1.0, float(np.abs(want).max())),
                            "%s array %d" % (name, num))
        rec.notes["error " + case["dtype"]] = worst


@st.composite
def long_cases(draw):
    return {"long": draw(st.sampled_from([2000, 33000, 40000, 66000, 70000, 140000])), "other": draw(st.integers(1, 3)),
            "along": draw(st.sampled_from(["rows", "cols"])), "scheme": draw(st.sampled_from(["Grid", "Grid", "Spline"])),
            "ask": draw(st.sampled_from(["shape", "shape", "slices", "points"])), "stride": draw(st.sampled_from([1, 1, 3, 7])),
            "start": draw(st.sampled_from([0, 0, 32760, 65530, 100000])), "ties": draw(st.integers(2, 6)),
            "lazy": draw(st.integers(0, 3)) == 0, "geo": draw(st.integers(0, 3)) == 0, "dtype": draw(gen.dtypes),
            "seed": draw(gen.seeds)}


def check_long(case, rec):
    """Tens of thousands of rows or columns."""
    rng = np.random.default_rng(case["seed"])
    start = case["start"] if case["ask"] != "shape" else 0
    stop = start + case["long"]
    last = stop - 1 + int(rng.integers(0, 50))
    inner = np.sort(rng.choice(np.arange(1, last), size=case["ties"] - 2, replace=False)) if case["ties"] > 2 else []
    ties = [np.array([0, *inner, last], dtype=int), np.arange(2) * 4]
    shape = [case["long"], case["other"]]
    fine = [np.arange(start, stop, case["stride"] if case["ask"] != "shape" else 1), np.arange(case["other"])]
    if case["along"] == "cols":
        ties, fine, shape = ties[::-1], fine[::-1], shape[::-1]
    dtype = np.dtype(case["dtype"])
    kwargs = {"chunks": tuple(max(1, n // 3) for n in map(len, fine))} if case["lazy"] and case["ask"] != "slices" else {}
    conf = {"scheme": case["scheme"].lower(), "method": None, "bounds": "default", "kx": 1, "ky": 1}
    geo = case["geo"] and case["ask"] != "slices"
    if geo:
        a, b = np.meshgrid(*[t / t[-1] for t in ties], indexing="ij")
        arrays = [(170 + 25 * b + 3 * a), (60 * a - 10 * b)]
        arrays[0] = np.where(arrays[0] > 180, arrays[0] - 360, arrays[0])
    else:
        arrays = [rng.normal(size=[len(t) for t in ties]) * 100 for _ in range(2)]
    arrays = [a.astype(dtype) for a in arrays]
    init = {} if case["scheme"] == "Grid" else {"kx": 1, "ky": 1}

    def run():
        if case["ask"] == "slices":
            slices = tuple(slice(int(f[0]), int(f[-1]) + 1, case["stride"] if len(f) > 3 else None) for f in fine)
            return [getattr(interpolator, "Single%sInterpolator" % case["scheme"])(tuple(ties), a, **init)
                    .interpolate_slices(slices) for a in arrays]
        klass = getattr(geointerpolator, "Geo%sInterpolator" % case["scheme"]) if geo else \
            getattr(interpolator, "Multiple%sInterpolator" % case["scheme"])
        interp = klass(tuple(ties), *arrays, **init)
        res = interp.interpolate_to_shape(shape, **kwargs) if case["ask"] == "shape" else interp.interpolate(fine, **kwargs)
        return [np.asarray(r) for r in res]

    res = call(run)
    require(len(res) == 2, "%d results" % len(res))
    data = models.lonlat2xyz(*arrays) if geo else arrays
    want = [expected_values(conf, a, *ties, *fine)[0] for a in data]
    if geo:
        models.check_places_xyz(res[0], res[1], want, 1e-3 if dtype == np.float64 else 80.0, "long geographic",
                                fuzz=1e-9 if dtype == np.float64 else 1e-5)
    else:
        for num, (got, exp) in enumerate(zip(res, want)):
            check_shape(as_np(got), exp.shape, "result %d" % num)
            check_close(got, exp, 1e-7 if dtype == np.float64 else 1e-3, "long array %d" % num)
    rec.label(case["ask"], case["scheme"], "geographic" if geo else "plain", "lazy" if kwargs else "direct",
              "position > 65536" if stop > 65536 else "position > 32768" if stop > 32768 else "shorter")
    rec.mark(stop > 32768)


SUBCHECKS = [
    Sub("values", cases(), check, quick=9600, thorough=60000, rule="positions off the tie positions, or unordered"),
    Sub("outside", outside_cases(), check_outside, quick=1920, thorough=6000, rule="every case"),
    Sub("shapes", shape_cases(), check_shape_calls, quick=1920, thorough=9000, rule="tie positions more than one apart"),
    Sub("geographic", geo_cases(), check_geo, quick=4800, thorough=30000,
        rule="a swath at a special place, or irregular"),
    Sub("large", large_cases(), check_large, quick=240, thorough=3000, rule="100 tie rows or columns, or more"),
    Sub("long", long_cases(), check_long, quick=240, thorough=3000, rule="positions beyond 32768"),
]
SETTINGS = {"technique": "property-based testing (Hypothesis) against independent bilinear, nearest, pchip and spline models",
            "assumptions": ["cubic and quintic grid methods are solved iteratively by scipy: compared to 1e-3",
                            "spline positions inside the tie grid, in order"]}
