"""Malformed tie-point input is refused, not interpolated."""
import dask.array as da
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from checks import pipelines
from lib import gen
from lib.core import Invalid, Sub, Violation, describe, must_raise

CONTAINERS = ["numpy", "numpy", "dask", "labelled", "labelled dask"]


def evaluated(func, *args, **kwargs):
    """Call the function and compute what it returns."""
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = func(*args, **kwargs)
        return tuple(np.asarray(r) for r in res)


def boxed(arr, box, dims, rows):
    if "dask" in box:
        chunks = tuple(max(1, min(rows if k == 0 else n, n)) if n else 1 for k, n in enumerate(arr.shape))
        arr = da.from_array(arr, chunks=chunks)
    if "labelled" in box:
        arr = xr.DataArray(arr, dims=list(dims)[:arr.ndim])
    return arr


def values_for(shape, num, seed):
    rng = np.random.default_rng(seed + num)
    return rng.uniform(0, 60, shape)


@st.composite
def modis_cases(draw):
    name = draw(st.sampled_from(pipelines.CVIIRS + pipelines.SIMPLE * 2))
    per = 2 if "5km_to" in name else 10
    rows = per * draw(st.integers(1, 3))
    if name in pipelines.SIMPLE:
        cols = draw(st.sampled_from([2, 3, 20, 135]))
    else:
        cols = draw(st.sampled_from([270, 271])) if "5km_to" in name else 1354
    n = 2 if name in pipelines.SIMPLE else 3
    shapes = [[rows, cols] for _ in range(n)]
    kinds = ["dimensions", "partial scan", "rows differ", "columns differ", "width", "one dimension", "swapped",
             "not arrays"]
    kind = draw(st.sampled_from(kinds))
    which = draw(st.integers(0, n - 1))
    if kind == "dimensions":
        new = draw(st.sampled_from([[rows * cols], [1, rows, cols], [rows, cols, 1], [rows, cols, 2], []]))
        for k in range(n):
            if k == which or draw(st.booleans()):
                shapes[k] = new
    elif kind == "one dimension":
        shapes[which] = draw(st.sampled_from([[rows], [cols]]))
    elif kind == "partial scan":
        bad = draw(st.integers(1, 40).filter(lambda r: r % per))
        shapes = [[bad, cols] for _ in range(n)]
    elif kind == "rows differ":
        other = draw(st.one_of(st.integers(0, 40), st.sampled_from([1, per, 2 * per, rows - 1, rows + 1])).filter(
            lambda r: r != rows))
        shapes[which][0] = other
    elif kind == "columns differ":
        other = draw(st.one_of(st.integers(0, 300), st.sampled_from([1, 2, 270, 271, 1353, 1354, 1355])).filter(
            lambda c: c != cols))
        shapes[which][1] = other
    elif kind == "width":
        if name in pipelines.SIMPLE:
            width = draw(st.integers(0, 1))
        elif "5km_to" in name:
            width = draw(st.one_of(st.sampled_from([0, 1, 2, 269, 272, 1354]), st.integers(0, 400)).filter(
                lambda c: c not in (270, 271)))
        else:
            width = draw(st.one_of(st.sampled_from([0, 1, 2, 270, 271, 1353, 1355]), st.integers(0, 1400)).filter(
                lambda c: c != 1354))
        shapes = [[rows, width] for _ in range(n)]
    elif kind == "not arrays":
        other = draw(st.sampled_from([None, "a", 1.5, "list"]))
        for k in range(n):
            if k == which or draw(st.booleans()):
                shapes[k] = other
    else:
        if rows == cols:
            shapes[which] = [rows + per, cols]
        else:
            shapes[which] = [cols, rows]
    same = draw(st.booleans())
    first = draw(st.sampled_from(CONTAINERS))
    return {"pipe": name, "shapes": shapes, "kind": kind, "dtype": draw(gen.dtypes), "seed": draw(gen.seeds),
            "boxes": [first if same or not k else draw(st.sampled_from(CONTAINERS)) for k in range(n)],
            "chunk": draw(st.sampled_from([per, per, 2 * per, 3, 1]))}


def check_modis(case, rec):
    name = case["pipe"]
    func = pipelines.simple_func(name) if name in pipelines.SIMPLE else pipelines.cviirs_func(name)
    dtype = np.dtype(case["dtype"])
    args = []
    for num, (shape, box) in enumerate(zip(case["shapes"], case["boxes"])):
        if shape == "list":
            args.append([[10.0 + k for k in range(4)]] * 10)
        elif not isinstance(shape, list):
            args.append(shape)
        else:
            arr = values_for(tuple(shape), num, case["seed"] % 1000).astype(dtype)
            args.append(boxed(arr, box, ("y", "x", "z"), case["chunk"]))
    try:
        res = evaluated(func, *args)
    except Exception:
        pass
    else:
        if all(shape == "list" for shape in case["shapes"]) and len({r.shape for r in res}) == 1:
            return
        raise Violation("%s accepted arrays of shapes %s (%s) and returned %s" % (
            name, case["shapes"], ", ".join(case["boxes"]), describe(res)))
    rec.label(name, case["kind"], case["dtype"], *sorted(set(case["boxes"])))
    rec.mark()


@st.composite
def legacy_cases(draw):
    name = draw(st.sampled_from(pipelines.LEGACY))
    scans = draw(st.integers(1, 2)) + (name == "metop20kmto1km")      # (a single row would be broadcast)
    pipe = pipelines.build({"pipe": name, "cfg": {"scans": scans}})
    rows, cols = pipe.rows, pipe.cols
    kind = draw(st.sampled_from(["partial scan", "width", "rows differ", "columns differ", "dimensions"]))
    shapes = [[rows, cols], [rows, cols]]
    if kind == "partial scan":
        if name == "metop20kmto1km":
            shapes = [[rows, cols - 1], [rows, cols - 1]]
        else:
            bad = draw(st.integers(1, 30).filter(lambda r: r % pipe.scan[0]))
            shapes = [[bad, cols], [bad, cols]]
    elif kind == "width":
        bad = draw(st.one_of(st.sampled_from([cols - 1, cols + 1, 2, 3]), st.integers(0, 1400)).filter(
            lambda c: c != cols))
        shapes = [[rows, bad], [rows, bad]]
    elif kind == "rows differ":
        # (a single row is broadcast, as numpy does)
        shapes[draw(st.integers(0, 1))][0] = draw(st.integers(2, 40).filter(lambda r: r != rows))
    elif kind == "columns differ":
        shapes[draw(st.integers(0, 1))][1] = draw(st.integers(2, 300).filter(lambda c: c != cols))
    else:
        new = draw(st.sampled_from([[rows * cols], [cols], [rows, cols, 2], [2, rows, cols], []]))
        shapes = [new, new]
    return {"pipe": name, "shapes": shapes, "kind": kind, "seed": draw(gen.seeds), "dtype": draw(gen.dtypes)}


def check_legacy(case, rec):
    args = [values_for(tuple(s), n, case["seed"] % 1000).astype(case["dtype"]) for n, s in enumerate(case["shapes"])]
    try:
        res = evaluated(pipelines.legacy_func(case["pipe"]), *args)
    except Exception:
        pass
    else:
        raise Violation("%s accepted arrays of shapes %s and returned %s"
                        % (case["pipe"], case["shapes"], describe(res)))
    rec.label(case["pipe"], case["kind"])
    rec.mark()


@st.composite
def vii_cases(draw):
    per, cols = draw(st.integers(2, 5)), draw(st.integers(2, 6))
    rows = per * draw(st.integers(1, 3))
    geo = draw(st.booleans())
    n = 2 if geo else draw(st.integers(1, 3))
    kinds = ["rows", "shape", "dimensions", "names"] if n > 1 else ["rows", "dimensions"]
    kind = draw(st.sampled_from(kinds))
    shapes = [[rows, cols] for _ in range(n)]
    dims = [["y", "x"] for _ in range(n)]
    which = draw(st.integers(0, n - 1))
    if kind == "rows":
        bad = draw(st.integers(1, 20).filter(lambda r: r % per))
        shapes = [[bad, cols] for _ in range(n)]
    elif kind == "shape":
        axis = draw(st.integers(0, 1))
        shapes[which][axis] += draw(st.sampled_from([1, -1, per, cols]))
        if shapes[which][axis] < 1:
            shapes[which][axis] = 7 * per
    elif kind == "dimensions":
        for k in range(n):
            if k == which or draw(st.booleans()):
                shapes[k] = [rows, cols, 2]
                dims[k] = ["y", "x", "z"]
    else:
        if draw(st.booleans()):
            dims[which] = draw(st.sampled_from([["y", "z"], ["rows", "cols"], ["a", "x"]]))
        else:
            cols = rows
            shapes = [[rows, rows] for _ in range(n)]
            dims[which] = ["x", "y"]
    return {"geo": geo, "per_scan": per, "factor": draw(st.sampled_from([1, 2, 8])), "shapes": shapes, "dims": dims,
            "kind": kind, "lazy": draw(st.booleans()), "seed": draw(gen.seeds),
            "high": draw(st.booleans()), "wide": draw(st.booleans())}


def check_vii(case, rec):
    from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation
    args = []
    for num, (shape, dims) in enumerate(zip(case["shapes"], case["dims"])):
        arr = values_for(tuple(shape), num, case["seed"] % 1000)
        if num == 0 and case["wide"]:
            arr = arr * 6 - 180
        if num == 1 and case["high"]:
            arr = arr / 4 + 70
        if case["lazy"]:
            arr = da.from_array(arr, chunks=2)
        args.append(xr.DataArray(arr, dims=dims))
    if case["geo"]:
        def func():
            return evaluated(tie_points_geo_interpolation, args[0], args[1], case["per_scan"], case["factor"])
    else:
        def func():
            return evaluated(tie_points_interpolation, args, case["per_scan"], case["factor"])
    func.__name__ = "VII interpolation of shapes %s, dimensions %s, %d tie points per scan," % (
        case["shapes"], case["dims"], case["per_scan"])
    must_raise(func)
    rec.label(case["kind"], "geolocation" if case["geo"] else "data", "lazy" if case["lazy"] else "in memory")
    if case["geo"]:
        rec.label("cartesian" if case["high"] or case["wide"] else "lon/lat")
    rec.mark()


@st.composite
def linear_cases(draw):
    d = draw(st.integers(1, 5))
    orders = [draw(st.integers(2, 4)) for _ in range(d)]
    kinds = ["too many dimensions"] if d == 5 else ["points", "flat points", "values", "flat values", "smin", "smax",
                                                   "orders", "tiny order", "shape only"]
    return {"orders": orders, "kind": draw(st.sampled_from(kinds)), "by": draw(st.sampled_from([-1, 1, 2])),
            "n": draw(st.sampled_from([1, 3, 50])), "rows": draw(st.integers(1, 2)), "dtype": draw(gen.dtypes),
            "at": draw(st.integers(0, 3)), "late": draw(st.booleans()), "tiny": draw(st.sampled_from([1, 0, -1]))}


def check_linear(case, rec):
    from geotiepoints.multilinear import MultilinearInterpolator
    kind, orders, by = case["kind"], list(case["orders"]), case["by"]
    d = len(orders)
    smin, smax = [0.0] * d, [1.0] * d
    size = int(np.prod(orders))
    pts_shape, val_shape = (d, case["n"]), (case["rows"], size)
    if kind == "points":
        pts_shape = (max(0, d + by), case["n"])
    elif kind == "flat points":
        pts_shape = (d * case["n"],)
    elif kind == "values":
        val_shape = (case["rows"], max(0, size + by))
    elif kind == "flat values":
        val_shape = (case["rows"] * size,)
    elif kind in ("smin", "smax"):
        new = [0.0 if kind == "smin" else 1.0] * max(0, d + by)
        if kind == "smin":
            smin = new
        else:
            smax = new
    elif kind == "orders":
        orders[case["at"] % d] += by
        if int(np.prod(orders)) == size:
            raise Invalid
    elif kind == "tiny order":
        orders[case["at"] % d] = case["tiny"]
        val_shape = (case["rows"], max(0, int(np.prod(orders))))
    elif kind == "shape only":
        # the number of values fits, but the grid has another number of dimensions
        smin, smax = smin + [0.0], smax + [1.0]
    values = np.arange(np.prod(val_shape), dtype=float).reshape(val_shape)
    points = np.linspace(0.1, 0.8, int(np.prod(pts_shape))).reshape(pts_shape)

    def run():
        if case["late"]:
            interp = MultilinearInterpolator(smin, smax, orders, dtype=case["dtype"])
            interp.set_values(values)
        else:
            interp = MultilinearInterpolator(smin, smax, orders, values=values, dtype=case["dtype"])
        return interp(points)

    run.__name__ = "multilinear interpolation (orders %s, smin %d, smax %d, values %s, points %s)" % (
        orders, len(smin), len(smax), val_shape, pts_shape)
    must_raise(run)
    rec.label(kind, "d=%d" % d, case["dtype"])
    rec.mark()


@st.composite
def tie_cases(draw):
    rows, cols = draw(st.integers(4, 6)), draw(st.integers(4, 6))
    which = draw(st.sampled_from(["geo", "geo", "geogrid", "geospline", "plain", "plain", "grid", "spline"]))
    if which.startswith("geo"):
        kinds = ["not geographic", "grid"]
    else:
        kinds = ["grid"]
    if which in ("geo", "plain"):
        kinds.append("border")
    kind = draw(st.sampled_from(kinds))
    case = {"which": which, "kind": kind, "rows": rows, "cols": cols, "same": draw(st.booleans()),
            "by": draw(st.sampled_from([-1, 1, 2])), "axis": draw(st.integers(0, 1)), "lazy": draw(st.booleans()),
            "seed": draw(gen.seeds)}
    if kind == "border":
        bad = draw(st.sampled_from(["z", "Y", "rows", "", "yx", 0, 1, None]))
        good = draw(st.sampled_from([[], ["x"], ["y", "x"]]))
        at = draw(st.integers(0, len(good)))
        case["dims"] = good[:at] + [bad] + good[at:]
    if kind == "not geographic":
        case["what"] = draw(st.sampled_from(["one array", "three arrays", "none", "nothing", "number", "object"]))
    return case


class Something:
    lons = np.zeros((4, 4))


def check_tie(case, rec):
    from geotiepoints import geointerpolator as gi
    from geotiepoints import interpolator as ip
    rows, cols = case["rows"], case["cols"]
    shape = [rows, cols]
    if case["kind"] == "grid":
        shape[case["axis"]] += case["by"]
    lon, lat = (values_for(tuple(shape), n, case["seed"] % 1000) for n in (0, 1))
    tie = np.arange(rows) * 2, np.arange(cols) * 3
    fine = (tie[0] if case["same"] else np.arange(rows * 2 - 1)), np.arange(cols * 3 - 2)
    data = (lon, lat)
    which = case["which"]
    if case["kind"] == "not geographic":
        data = {"one array": (lon,), "three arrays": (lon, lat, lat), "none": (), "nothing": (None,), "number": (3,),
                "object": (Something(),)}[case["what"]]
        if which == "geo" and case["what"] == "three arrays":
            raise Invalid      # a sequence starting with longitudes and latitudes

    def run():
        kwargs = {"chunks": 2} if case["lazy"] else {}
        if which == "geo":
            geodata = data if len(data) != 1 else data[0]
            interp = gi.GeoInterpolator(geodata, tie, fine)
        elif which == "plain":
            interp = ip.Interpolator([lon, lat], tie, fine)
        if which in ("geo", "plain"):
            if case["kind"] == "border":
                interp.fill_borders(*case["dims"])
            return tuple(interp.interpolate())
        klass = {"geogrid": gi.GeoGridInterpolator, "geospline": gi.GeoSplineInterpolator,
                 "grid": ip.MultipleGridInterpolator, "spline": ip.MultipleSplineInterpolator}[which]
        interp = klass(tie, *data)
        return tuple(np.asarray(r) for r in interp.interpolate(fine, **kwargs))

    run.__name__ = "%s (%s)" % (which, case.get("what") or case.get("dims") or
                                "data of shape %s for a %d x %d grid" % (shape, rows, cols))
    must_raise(run)
    rec.label(which, case["kind"], case.get("what", ""))
    rec.mark()


RULE = "every case (the malformed call is made and has to be refused)"
SUBCHECKS = [
    Sub("modis", modis_cases(), check_modis, quick=6000, thorough=25000, rule=RULE),
    Sub("legacy", legacy_cases(), check_legacy, quick=1800, thorough=6000, rule=RULE),
    Sub("vii", vii_cases(), check_vii, quick=3600, thorough=15000, rule=RULE),
    Sub("multilinear", linear_cases(), check_linear, quick=5400, thorough=20000, rule=RULE),
    Sub("tie_data", tie_cases(), check_tie, quick=5400, thorough=20000, rule=RULE),
]
SETTINGS = {"technique": "property-based testing (Hypothesis): every generated malformed call has to raise"}
