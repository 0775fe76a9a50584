"""Border filling continues tie data linearly, chunk by chunk."""
import numpy as np
from geotiepoints.geointerpolator import GeoInterpolator
from geotiepoints.interpolator import Interpolator
from hypothesis import strategies as st

from lib import gen, models
from lib.core import Sub, as_np, call, check_close, check_shape, require


@st.composite
def layouts(draw):
    """Tie and fine positions, chunk size in fine rows."""
    chunks = draw(st.integers(1, 4))
    kind = draw(st.sampled_from(["regular", "regular", "irregular", "modis"]))
    rows, frows = [], []
    unit = draw(st.sampled_from([1.0, 5.0, 0.2]))
    if kind == "modis":
        # 10 rows per scan; ties in the middle of five pixels; in pixel or tie units
        unit = draw(st.sampled_from([1.0, 0.2]))
        size = 10
        frows = [i * unit for i in range(10 * chunks)]
        rows = [(i * 5 + 2) * unit for i in range(2 * chunks)]
    elif kind == "regular":
        f = draw(st.sampled_from([1, 2, 3, 4]))
        ties = draw(st.integers(2, 5))
        size = f * ties
        off = draw(st.sampled_from([(f - 1) / 2.0, 0.0, f - 1.0]))   # where the tie row is within its fine rows
        frows = [(i - off) / f * unit for i in range(size * chunks)]
        rows = [float(i) * unit for i in range(ties * chunks)]
    else:
        size = draw(st.integers(3, 7))
        pos = draw(st.sampled_from([0.0, -7.0, 3.5]))
        for _ in range(chunks):
            fine = []
            for _ in range(size):
                fine.append(pos)
                pos += draw(st.sampled_from([1.0, 0.5, 2.0]))
            cand = sorted(set(fine) | {(a + b) / 2 for a, b in zip(fine, fine[1:])})
            picks = draw(st.lists(st.integers(0, len(cand) - 1), min_size=2, max_size=5, unique=True))
            rows.extend(cand[i] for i in sorted(picks))
            frows.extend(fine)
    whole = chunks == 1 and draw(st.booleans())
    cols = draw(gen.positions(draw(st.integers(3, 6))))
    lo, hi = draw(st.sampled_from([0.0, 0.5, 2.0, 2.0])), draw(st.sampled_from([0.0, 0.5, 1.0, 3.0]))
    parts = draw(st.lists(st.integers(0, 100), max_size=6))
    a, b = cols[0] - lo, cols[-1] + hi
    fcols = sorted({a, b} | {a + (b - a) * p / 100.0 for p in parts})
    return {"rows": rows, "frows": frows, "cols": cols, "fcols": fcols, "chunk": 0 if whole else size,
            "chunks": chunks, "kind": kind, "ints": draw(st.booleans())}


def positions_of(lay):
    out = [np.array(lay[k], dtype=float) for k in ("rows", "cols", "frows", "fcols")]
    if lay["ints"]:
        out = [a.astype(int) if np.array_equal(a, np.floor(a)) else a for a in out]
    return out


@st.composite
def cases(draw):
    lay = draw(layouts())
    added = len(set(lay["cols"]) | {lay["fcols"][0], lay["fcols"][-1]})
    return {"lay": lay, "kx": draw(st.sampled_from([1, 1, 1, 2, 3])),
            "ky": draw(st.integers(1, min(3, len(lay["cols"]) - 1, added - 1))),
            "dims": draw(st.sampled_from([["y", "x"], ["x", "y"], ["x"], ["y"], ["y", "x"]])),
            "calls": draw(st.sampled_from(["one", "one", "separate", "twice"])),
            "n": draw(st.integers(1, 3)), "seed": draw(gen.seeds), "dtype": draw(gen.dtypes),
            "data": draw(st.sampled_from(["random", "random", "affine", "whole"])),
            "layouts": draw(st.lists(st.one_of(st.just("C"), gen.layouts), min_size=1, max_size=3))}


def filled(case, arrays, dims, klass=Interpolator):
    lay = case["lay"]
    rows, cols, frows, fcols = positions_of(lay)
    laid = case.get("layouts", ["C"])
    arg = tuple(gen.layout(a.copy(), laid[k % len(laid)]) for k, a in enumerate(arrays))
    interp = call(klass, arg, (rows, cols), (frows, fcols), case["kx"], case["ky"], chunk_size=lay["chunk"])
    if case["calls"] == "separate":
        for dim in dims:
            call(interp.fill_borders, dim)
    else:
        call(interp.fill_borders, *dims)
        if case["calls"] == "twice":
            call(interp.fill_borders, *dims)
    res = call(interp.interpolate)
    return res


def supported(case):
    """Can the spline of the requested orders be made, and does it stay inside the (filled) tie area?"""
    lay, dims = case["lay"], case["dims"]
    if "x" not in dims and (lay["fcols"][0] < lay["cols"][0] or lay["fcols"][-1] > lay["cols"][-1]):
        return False
    if "y" not in dims and (lay["frows"][0] < lay["rows"][0] or lay["frows"][-1] > lay["rows"][-1]):
        return False
    return case["kx"] < len(lay["rows"])


def settle(case):
    """The nearest supported case (fill everything, linear along rows)."""
    if not supported(case):
        case = dict(case, dims=["y", "x"], kx=1)
    return case


def expected_of(case, data, dims):
    rows, cols, frows, fcols = (np.asarray(a, float) for a in positions_of(case["lay"]))
    return models.filled_spline(rows, cols, data, frows, fcols, case["kx"], case["ky"], case["lay"]["chunk"], dims)


def check(case, rec):
    case = settle(case)
    lay = case["lay"]
    rows, cols, frows, fcols = (np.asarray(a, float) for a in positions_of(lay))
    rng = np.random.default_rng(case["seed"])
    dtype = np.dtype(case["dtype"])
    arrays, affine = [], []
    for _ in range(case["n"]):
        if case["data"] == "affine":
            a, b, c = rng.uniform(-2, 2, 3)
            arrays.append((a + b * rows[:, None] + c * cols[None, :]).astype(dtype))
            affine.append(a + b * frows[:, None] + c * fcols[None, :])
        elif case["data"] == "whole":
            # whole numbers, as integers; the rows and columns that are added are not
            arrays.append(rng.integers(-300, 300, (len(rows), len(cols))).astype(
                "int32" if dtype == np.float32 else "int64"))
        else:
            arrays.append(rng.normal(size=(len(rows), len(cols))).astype(dtype))
    if case["data"] == "whole":
        dtype = np.dtype("float64")
    dims = case["dims"]
    res = filled(case, arrays, dims)
    require(len(res) == len(arrays), "%d results for %d arrays" % (len(res), len(arrays)))
    eps = 1e-10 if dtype == np.float64 else 3e-5
    for num, (got, data) in enumerate(zip(res, arrays)):
        check_shape(as_np(got), (len(frows), len(fcols)), "result %d" % num)
        expected = expected_of(case, data, dims)
        scale = max(1.0, float(np.abs(expected).max()))
        worst = check_close(got, expected, eps * scale, "array %d with borders filled (%s)" % (num, ",".join(dims)))
        rec.notes["relative error " + case["dtype"]] = worst / scale
        if affine:
            # rounding of the tie data, as far as the spline lets it grow
            grown = models.spline_weights(rows, cols, frows, fcols, case["kx"], case["ky"], lay["chunk"], dims)
            check_close(got, affine[num], (10 * eps + (0 if dtype == np.float64 else 1e-7 * grown))
                        * max(1.0, np.abs(affine[num]).max()), "affine data %d" % num)
    if len(dims) == 2:
        other = filled(case, arrays, dims[::-1])
        for num, (a, b) in enumerate(zip(res, other)):
            check_close(a, as_np(b), 2 * eps * max(1.0, np.abs(as_np(b)).max()), "order of filling, array %d" % num)
    if case["kx"] == 1 and lay["chunks"] > 1 and lay["chunk"] and "y" in dims:
        # change the data of one chunk
        which = case["seed"] % lay["chunks"]
        first, last = frows[which * lay["chunk"]], frows[(which + 1) * lay["chunk"] - 1]
        mine = (rows >= first) & (rows <= last)
        changed = [a.copy() for a in arrays]
        for a in changed:
            a[mine] = rng.normal(size=a[mine].shape) * (300 if case["data"] == "whole" else 10)
        res2 = filled(case, changed, dims)
        keep = np.ones(len(frows), bool)
        keep[which * lay["chunk"]:(which + 1) * lay["chunk"]] = False
        for num, (a, b) in enumerate(zip(res, res2)):
            scale = max(1.0, np.abs(as_np(b)).max(), np.abs(as_np(a)).max())
            check_close(as_np(b)[keep], as_np(a)[keep], eps * scale, "rows of the other chunks, array %d" % num)
        rec.label("another chunk changed")
    added_rows = "y" in dims and any(
        frows[k * (lay["chunk"] or len(frows))] not in rows for k in range(lay["chunks"]))
    added_cols = "x" in dims and (fcols[0] not in cols or fcols[-1] not in cols)
    rec.label(lay["kind"], "chunks=%d" % lay["chunks"], "-".join(dims), case["dtype"], "kx=%d" % case["kx"],
              case["calls"], *case.get("layouts", ["C"]))
    if "y" in dims and (set(frows[::lay["chunk"] or len(frows)]) & set(rows)):
        rec.label("tie row on a chunk border")
    rec.mark(added_rows or added_cols)


@st.composite
def geo_cases(draw):
    case = draw(cases())
    case["swath"] = draw(gen.swaths(step=draw(st.sampled_from([(0.5, 1.0), (0.05, 0.1)]))))
    return case


def check_geo(case, rec):
    case = settle(case)
    lay = case["lay"]
    lon, lat = gen.make_swath(case["swath"], len(lay["rows"]), len(lay["cols"]))
    dtype = np.dtype(case["dtype"])
    lon, lat = lon.astype(dtype), lat.astype(dtype)
    res = filled(case, (lon, lat), case["dims"], GeoInterpolator)
    xyz = [expected_of(case, c, case["dims"]) for c in models.lonlat2xyz(lon, lat)]
    f64 = dtype == np.float64
    rel = max(np.abs(c).max() for c in xyz) / models.R_EARTH
    if rel > 1.3:
        # continued far into space: longitude and latitude of such points are not geolocation
        rec.label("off the globe")
        return
    near = np.sqrt(sum(c ** 2 for c in xyz)) / models.R_EARTH
    grow = models.spline_weights(*positions_of(lay)[:2], *positions_of(lay)[2:], case["kx"], case["ky"], lay["chunk"],
                                 case["dims"])
    tol = np.where(near > 0.5, 1e-2 if f64 else 10 + 15.0 * grow, np.inf)
    ratio = models.check_places_xyz(res[0], res[1], xyz, tol, "geographic border filling", fuzz=1e-8 if f64 else 1e-4)
    rec.notes["metres/tolerance " + case["dtype"]] = ratio
    rec.mark(gen.classify(rec, lon, lat) > 0 or bool(case["swath"].get("noise")))


@st.composite
def large_cases(draw):
    return {"chunks": draw(st.sampled_from([1, 20, 127, 140, 260, 300])), "ties": draw(st.sampled_from([2, 2, 4, 10])),
            "factor": draw(st.sampled_from([1, 2, 4, 5])), "cols": draw(st.sampled_from([4, 40, 271])),
            "per_col": draw(st.sampled_from([1, 3, 5])), "unit": draw(st.sampled_from([1.0, 0.2])), "seed": draw(gen.seeds),
            "dtype": draw(gen.dtypes), "dims": draw(st.sampled_from([["y", "x"], ["x", "y"]])),
            "ky": draw(st.integers(1, 3))}


def check_large(case, rec):
    """Swaths of hundreds of chunks."""
    f = case["factor"]
    n = case["ties"] * case["chunks"]
    off = (f - 1) / 2.0
    fcols = np.arange(case["cols"] * case["per_col"]) * case["unit"]
    lay = {"rows": np.arange(n) * case["unit"], "frows": (np.arange(n * f) - off) / f * case["unit"],
           "cols": (np.arange(case["cols"]) * case["per_col"] + case["per_col"] // 2) * case["unit"], "fcols": fcols,
           "chunk": f * case["ties"], "ints": False}
    rng = np.random.default_rng(case["seed"])
    dtype = np.dtype(case["dtype"])
    arrays = [rng.normal(size=(n, case["cols"])).astype(dtype), rng.normal(size=(n, case["cols"])).astype(dtype)]
    full = {"lay": lay, "kx": 1, "ky": case["ky"], "calls": "one"}
    res = filled(full, arrays, case["dims"])
    require(len(res) == 2, "%d results for two arrays" % len(res))
    eps = 1e-9 if dtype == np.float64 else 1e-4
    for num, (got, data) in enumerate(zip(res, arrays)):
        check_shape(as_np(got), (n * f, len(fcols)), "result %d" % num)
        want = expected_of(full, data, case["dims"])
        scale = max(1.0, float(np.abs(want).max()))
        rec.notes["relative error large " + case["dtype"]] = check_close(got, want, eps * scale, "array %d" % num) / scale
    rec.label("large", "more than 128 chunks" if case["chunks"] > 128 else "fewer chunks")
    rec.mark(case["chunks"] > 1 and f > 1)


SUBCHECKS = [
    Sub("fill", cases(), check, quick=9600, thorough=60000, rule="at least one row or column was added"),
    Sub("geographic", geo_cases(), check_geo, quick=4000, thorough=20000,
        rule="a swath at a special place, or irregular"),
    Sub("large", large_cases(), check_large, quick=160, thorough=2000, rule="several chunks, with rows added"),
]
SETTINGS = {"technique": "property-based testing (Hypothesis): chunk-wise linear model, affine data, order and chunk independence",
            "assumptions": ["at least two tie rows per chunk, inside the fine rows of their chunk",
                            "the number of fine rows is a multiple of the chunk size"]}
