"""Interpolator is the tensor spline of the requested orders."""
import numpy as np
from geotiepoints.geointerpolator import GeoInterpolator
from geotiepoints.interpolator import Interpolator
from hypothesis import strategies as st

from lib import gen, models
from lib.core import Sub, as_np, call, check_close, check_shape, require


@st.composite
def axes(draw, degree, extra_max=6, same=False):
    """Tie positions, fine positions inside (sorted), as drawn numbers."""
    n = draw(st.integers(degree + 1, degree + 1 + extra_max))
    n = max(n, 2)
    tie = draw(gen.positions(n))
    if same:
        return tie, list(tie)
    kind = draw(st.sampled_from(["some", "some", "dense", "integers"]))
    if kind == "integers":
        fine = [float(i) for i in range(int(np.ceil(tie[0])), int(np.floor(tie[-1])) + 1)]
        if fine:
            return tie, fine
    if kind == "dense":
        num = draw(st.integers(2, 40))
        return tie, [float(v) for v in np.linspace(tie[0], tie[-1], num)]
    parts = draw(st.lists(st.integers(0, 1000), min_size=1, max_size=8))
    fine = sorted({tie[0] + (tie[-1] - tie[0]) * p / 1000.0 for p in parts})
    return tie, fine


@st.composite
def grids(draw):
    kx, ky = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    same = draw(st.integers(0, 3)) == 0
    rows, frows = draw(axes(1 if same else kx, same=same))
    cols, fcols = draw(axes(ky))
    return {"kx": kx, "ky": ky, "rows": rows, "cols": cols, "frows": frows, "fcols": fcols,
            "chunk": draw(st.sampled_from([0, 0, 1, 2, 5])), "ints": draw(st.booleans())}


@st.composite
def cases(draw):
    return {"grid": draw(grids()), "n": draw(st.integers(1, 4)), "seed": draw(gen.seeds), "dtype": draw(gen.dtypes),
            "data": draw(st.sampled_from(["random", "poly", "impulse", "offset"])),
            "integers": draw(st.integers(0, 5)) == 0, "mixed": draw(st.integers(0, 4)) == 0, "container": draw(st.sampled_from(["list", "tuple", "array"])),
            "layouts": draw(st.lists(st.one_of(st.just("C"), gen.layouts), min_size=1, max_size=4)),
            "places": draw(st.lists(st.sampled_from(["array", "array", "list", "readonly", "every other"]),
                                    min_size=4, max_size=4))}


def placed(places, kind):
    """Tie or fine places in another container."""
    if kind == "list":
        return places.tolist()
    if kind == "every other":
        return np.repeat(places, 2)[::2]
    places = places.copy()
    places.flags.writeable = kind != "readonly"
    return places


def grid_arrays(grid):
    out = [np.array(grid[k], dtype=float) for k in ("rows", "cols", "frows", "fcols")]
    if grid["ints"]:
        out = [a.astype(int) if np.array_equal(a, np.floor(a)) else a for a in out]
    return out


def polynomial(rng, kx, ky):
    coef = rng.uniform(-1, 1, (kx + 1, ky + 1))

    def func(rows, cols):
        r = 2 * (rows - polynomial.r0) / polynomial.rw - 1
        c = 2 * (cols - polynomial.c0) / polynomial.cw - 1
        return np.polynomial.polynomial.polygrid2d(r, c, coef)
    return func


def make_data(case, rows, cols):
    """Data arrays, and functions that the result has to equal (or None)."""
    rng = np.random.default_rng(case["seed"])
    grid = case["grid"]
    arrays, funcs = [], []
    shape = (len(rows), len(cols))
    for num in range(case["n"]):
        func = None
        if case["data"] == "random":
            arr = rng.normal(size=shape)
        elif case["data"] == "impulse":
            arr = np.zeros(shape)
            arr[rng.integers(shape[0]), rng.integers(shape[1])] = 1
        elif case["data"] == "offset":
            arr = 1000.0 * (num + 1) + rng.uniform(-1, 1, shape) * 10.0 ** num
        else:
            polynomial.r0, polynomial.rw = float(rows[0]), float(rows[-1] - rows[0])
            polynomial.c0, polynomial.cw = float(cols[0]), float(cols[-1] - cols[0])
            func = polynomial(rng, grid["kx"], grid["ky"])
            arr = func(rows, cols)
        arrays.append(arr)
        funcs.append(func)
    return arrays, funcs


def model(grid, data, rows, cols, frows, fcols):
    if len(rows) == len(frows) and np.array_equal(rows, frows):
        return models.rows_spline(cols, data, fcols, grid["ky"])
    return models.tensor_spline(rows, cols, data, frows, fcols, grid["kx"], grid["ky"])


def check(case, rec):
    grid = case["grid"]
    rows, cols, frows, fcols = grid_arrays(grid)
    dtype = np.dtype(case["dtype"])
    if case["container"] == "array":
        case = dict(case, n=1)
    arrays, funcs = make_data(case, rows, cols)
    types = [dtype] * len(arrays)
    if case.get("mixed"):
        # each array has a type of its own
        types = [np.dtype("f4" if (k + (dtype == np.float64)) % 2 else "f8") for k in range(len(arrays))]
    if case.get("integers"):
        # whole numbers, as integers; what lies between them is not
        for k in range(len(arrays)):
            if k == 0 or not case.get("mixed"):
                funcs[k] = None
                arrays[k] = np.rint(arrays[k] * 100).astype("int32" if types[k] == np.float32 else "int64")
                types[k] = np.dtype("float64")
    arrays = [a if a.dtype.kind == "i" else a.astype(t) for a, t in zip(arrays, types)]
    laid = case.get("layouts", ["C"])
    arg = [gen.layout(a.copy(), laid[k % len(laid)]) for k, a in enumerate(arrays)]
    arg = arg[0] if case["container"] == "array" else arg
    if case["container"] == "tuple":
        arg = tuple(arg)
    put = [placed(a, k) for a, k in zip((rows, cols, frows, fcols), case.get("places", ["array"] * 4))]
    interp = call(Interpolator, arg, tuple(put[:2]), tuple(put[2:]), grid["kx"], grid["ky"], chunk_size=grid["chunk"])
    res = call(interp.interpolate)
    require(len(res) == len(arrays), "%d results for %d arrays" % (len(res), len(arrays)))
    oned = np.array_equal(rows, frows)
    for num, (got, data, func, dtype) in enumerate(zip(res, arrays, funcs, types)):
        got = as_np(got)
        check_shape(got, (len(frows), len(fcols)), "result %d" % num)
        scale = float(np.abs(data).max()) or 1.0
        eps = 1e-10 if dtype == np.float64 else (2e-6 if oned else 1e-9)
        expected = model(grid, data, rows, cols, frows, fcols)
        scale = max(scale, float(np.abs(expected).max()))
        worst = check_close(got, expected, eps * scale, "array %d: spline (kx=%d, ky=%d)" % (num, grid["kx"], grid["ky"]))
        rec.notes["relative error %s%s" % (data.dtype, " 1d" if oned else "")] = worst / scale
        if func is not None:
            # rounding of the tie data, as far as the spline lets it grow
            grown = models.spline_weights(rows, cols, frows, fcols, 1 if oned else grid["kx"], grid["ky"])
            check_close(got, func(frows, fcols), (1e-9 if dtype == np.float64 else 1e-7 * grown + 1e-6) * scale,
                        "array %d: polynomial" % num)
    rec.label("kx=%d" % grid["kx"], "ky=%d" % grid["ky"], str(arrays[0].dtype), "rows kept" if oned else "both directions",
              "mixed types" if len(set(a.dtype for a in arrays)) > 1 else "one type", case["data"], *laid)
    rec.mark(not (set(fcols) <= set(cols)) and max(float(np.ptp(a)) for a in arrays) > 0)


@st.composite
def geo_cases(draw):
    return {"grid": draw(grids()), "swath": draw(gen.swaths(step=draw(st.sampled_from([(1.0, 1.0), (0.1, 0.2)])))),
            "dtype": draw(gen.dtypes),
            "container": draw(st.sampled_from(["tuple", "tuple", "list", "dask", "definition", "dask definition"])),
            "parts": draw(st.tuples(st.integers(1, 9), st.integers(1, 9)))}


def check_geo(case, rec):
    grid = case["grid"]
    rows, cols, frows, fcols = grid_arrays(grid)
    lon, lat = gen.make_swath(case["swath"], len(rows), len(cols))
    dtype = np.dtype(case["dtype"])
    lon, lat = lon.astype(dtype), lat.astype(dtype)
    parts = [lon.copy(), lat.copy()]
    if "dask" in case["container"]:
        import dask.array as da
        parts = [da.from_array(p, chunks=tuple(case["parts"])) for p in parts]
    if "definition" in case["container"]:
        from pyresample import SwathDefinition
        arg = SwathDefinition(*parts)
    else:
        arg = parts if case["container"] == "list" else tuple(parts)
    interp = call(GeoInterpolator, arg, (rows, cols), (frows, fcols), grid["kx"], grid["ky"], chunk_size=grid["chunk"])
    res = call(interp.interpolate)
    require(len(res) == 2, "GeoInterpolator returned %d arrays" % len(res))
    xyz = [model(grid, c, rows, cols, frows, fcols) for c in models.lonlat2xyz(lon, lat)]
    f64 = dtype == np.float64
    # rounding of the tie places, as far as the spline lets it grow
    weights = models.spline_weights(rows, cols, frows, fcols, grid["kx"], grid["ky"])
    tol = 1e-3 + 1e-7 * weights if f64 else 10.0 + 15.0 * weights
    ratio = models.check_places_xyz(res[0], res[1], xyz, tol, "geographic spline",
                                    fuzz=1e-9 if f64 else 3e-6 * weights.max())
    rec.notes["metres/tolerance " + str(dtype)] = ratio
    special = gen.classify(rec, lon, lat)
    rec.label(case["container"], str(dtype))
    rec.mark(not (set(fcols) <= set(cols)) and (special > 0 or bool(case["swath"].get("noise"))))


@st.composite
def large_cases(draw):
    size = st.sampled_from([6, 40, 130, 257, 400])
    fine = st.sampled_from([1, 30, 300, 700, 3000])
    return {"kx": draw(st.integers(1, 3)), "ky": draw(st.integers(1, 3)), "ties": [draw(size), draw(size)],
            "fine": [draw(fine), draw(fine)], "same": draw(st.integers(0, 3)) == 0, "dtype": draw(gen.dtypes),
            "start": draw(st.sampled_from([0.0, -50.0, 4e4])), "even": draw(st.booleans()), "seed": draw(gen.seeds),
            "n": draw(st.integers(1, 3))}


def check_large(case, rec):
    """Hundreds of tie rows and columns, thousands of fine ones."""
    rng = np.random.default_rng(case["seed"])
    ties, fine = [], []
    for n, m in zip(case["ties"], case["fine"]):
        gaps = np.full(n - 1, 5.0) if case["even"] else rng.uniform(0.5, 3, n - 1)
        tie = case["start"] + np.concatenate([[0], np.cumsum(gaps)])
        ties.append(tie)
        fine.append(np.sort(np.concatenate([rng.uniform(tie[0], tie[-1], m), tie[[0, -1]]])))
    if case["same"]:
        fine[0] = ties[0].copy()
    dtype = np.dtype(case["dtype"])
    arrays = [(rng.normal(size=case["ties"]) * 10.0 ** num).astype(dtype) for num in range(case["n"])]
    interp = call(Interpolator, [a.copy() for a in arrays], ties, fine, case["kx"], case["ky"])
    res = call(interp.interpolate)
    require(len(res) == len(arrays), "%d results for %d arrays" % (len(res), len(arrays)))
    for num, (got, data) in enumerate(zip(res, arrays)):
        check_shape(as_np(got), (len(fine[0]), len(fine[1])), "result %d" % num)
        want = model(case, data, *ties, *fine)
        scale = max(float(np.abs(data).max()), float(np.abs(want).max()))
        worst = check_close(got, want, (1e-9 if dtype == np.float64 else 1e-5) * scale, "array %d" % num)
        rec.notes["relative error large " + case["dtype"]] = worst / scale
    rec.label("large", "rows kept" if case["same"] else "both directions",
              "more than 256 ties" if max(case["ties"]) > 256 else "fewer ties")
    rec.mark(max(case["ties"]) >= 40 and not case["same"] or case["ties"][1] >= 40)


SUBCHECKS = [
    Sub("spline", cases(), check, quick=9600, thorough=60000,
        rule="fine columns between tie columns and data that are not constant"),
    Sub("geographic", geo_cases(), check_geo, quick=4800, thorough=30000,
        rule="fine columns between tie columns, and a swath at a special place or irregular"),
    Sub("large", large_cases(), check_large, quick=240, thorough=3000, rule="40 tie rows or columns, or more"),
]
SETTINGS = {"technique": "property-based testing (Hypothesis) against an independent spline algorithm, and polynomials",
            "assumptions": ["fine positions inside the tie area (scipy clamps to it outside)"]}
