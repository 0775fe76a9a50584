"""Single and double precision agree, and precision is kept."""
import numpy as np
from hypothesis import strategies as st

from checks import pipelines, targets
from lib import gen, models
from lib.core import Sub, as_np, call, check_close, check_places, check_shape, require

KEEP = pipelines.CVIIRS + pipelines.SIMPLE + ("geogrid", "geospline")


@st.composite
def cases(draw, pipes):
    case = draw(pipelines.with_swath(pipes))
    case["greenwich"] = draw(st.sampled_from([None, None, "greenwich", "antimeridian", "pole", "equator"]))
    if case["greenwich"]:
        sw = case["swath"]
        if case["greenwich"] in ("greenwich", "antimeridian"):
            sw["lon0"] = {"greenwich": 0.0, "antimeridian": 180.0}[case["greenwich"]]
        else:
            if sw["kind"] == "plate" and case["greenwich"] == "pole":
                sw["kind"], sw["az"] = "tangent", 8
            sw["lat0"] = {"pole": draw(st.sampled_from([90.0, -90.0])), "equator": 0.0}[case["greenwich"]]
    return case


def check(case, rec):
    pipe = pipelines.build(case)
    lon, lat = gen.make_swath(case["swath"], pipe.rows, pipe.cols)
    lon32, lat32 = lon.astype(np.float32), lat.astype(np.float32)
    lon64, lat64 = lon32.astype(np.float64), lat32.astype(np.float64)
    name = case["pipe"]
    if name in pipelines.CVIIRS:
        satz = pipe.satz.astype(np.float32)
        single = pipe.run(lon32, lat32, satz)
        double = pipe.run(lon64, lat64, satz)
    else:
        single, double = pipe.run(lon32, lat32), pipe.run(lon64, lat64)
    for arr, what in zip(list(single) + list(double), ("longitude", "latitude") * 2):
        require(as_np(arr).dtype.kind == "f", "%s is not a float array" % what)
    if name in KEEP:
        for res, dtype in ((single, np.float32), (double, np.float64)):
            for arr in res:
                require(as_np(arr).dtype == dtype, "%s for input of %s" % (as_np(arr).dtype, np.dtype(dtype)))
    tol = 15.0
    if "frows" in case["cfg"]:
        # higher orders and extrapolation amplify the rounding of the coordinates: by the sum of the weights' sizes
        tol = 10.0 + 5.0 * pipelines.weights(case["cfg"])
    if name in pipelines.CVIIRS:
        # what rounding of the angles does to the position between the tie points
        tol = tol + 2 * models.cviirs(lon64, lat64, satz, *pipelines.cviirs_config(name), 1.2e-7)[1]
    worst = check_places(single[0], single[1], double[0], double[1], tol, name + " in single precision")
    rec.notes["metres " + name] = worst
    rec.label(name, case["greenwich"] or "anywhere")
    rec.mark(gen.classify(rec, lon, lat) or case["greenwich"])


@st.composite
def numeric_cases(draw):
    return {"t": draw(st.sampled_from(["SingleGridInterpolator", "SingleSplineInterpolator", "MultipleGridInterpolator",
                                       "MultipleSplineInterpolator", "Multilinear"])),
            "data": draw(st.integers(0, 40)), "size": draw(st.integers(0, 4)), "opt": draw(st.integers(0, 35)),
            "query": draw(st.integers(0, 3))}


def check_numeric(case, rec):
    """The same numbers in both precisions through the grid, spline and multilinear interpolators."""
    results = []
    for dtype in ("float32", "float64"):
        target = targets.make(dict(case, dtype=dtype))
        if dtype == "float32":
            kept = target
        else:
            # the double precision one gets the single precision numbers
            if case["t"] == "Multilinear":
                target.values = [v.astype(np.float64) for v in kept.values]
                target.queries = [q.astype(np.float64) for q in kept.queries]
            else:
                target.inputs[1] = [a.astype(np.float64) for a in kept.inputs[1]]
        obj = call(target.start)
        results.append([as_np(r) for r in targets.values(call(target.call, obj, case["query"]))])
        for arr in results[-1]:
            require(arr.dtype == np.dtype(dtype), "%s: result of %s for %s" % (case["t"], arr.dtype, dtype))
    if case["t"] == "Multilinear":
        scale, factor = 6.0, 3.0 ** (1 + case["opt"] % 4) * (1 + case["data"]) * 20
    else:
        scale, factor = 400.0, 20.0
    for a, b in zip(*results):
        check_shape(a, b.shape, case["t"])
        nearest = getattr(kept, "kwargs", {}).get("method") == "nearest"
        tol = 1.2e-7 * scale * factor
        worst = check_close(a, b, 0.0 if nearest else tol, case["t"] + " in single precision")
        rec.notes["error / tolerance " + case["t"]] = worst / tol
    rec.label(case["t"], "query %d" % case["query"])
    rec.mark()


@st.composite
def dtype_cases(draw):
    return {"asked": draw(gen.dtypes), "values": draw(gen.dtypes), "points": draw(gen.dtypes),
            "dims": draw(st.integers(1, 4)), "seed": draw(gen.seeds), "points_kind": draw(st.sampled_from(["array", "list"]))}


def check_dtype(case, rec):
    """The multilinear interpolator works in the precision asked for, whatever it is given."""
    from geotiepoints.multilinear import MultilinearInterpolator
    rng = np.random.default_rng(case["seed"])
    dims, asked = case["dims"], np.dtype(case["asked"])
    orders = [int(n) for n in rng.integers(2, 5, dims)]
    values = rng.normal(size=(2, int(np.prod(orders)))).astype(case["values"])
    points = rng.uniform(-1, 1, (dims, 9)).astype(case["points"])
    interp = call(MultilinearInterpolator, [-1] * dims, [1] * dims, orders, values.copy(), dtype=asked.type)
    res = as_np(call(interp, points.tolist() if case["points_kind"] == "list" else points))
    require(res.dtype == asked, "asked for %s, got %s" % (asked, res.dtype))
    ref = call(MultilinearInterpolator, [-1] * dims, [1] * dims, orders, values.astype(np.float64), dtype=np.float64)
    ref = call(ref, points.astype(np.float64))
    check_close(res, ref, 1e-4 if asked == np.float32 else 1e-12, "result in the precision asked for")
    default = call(MultilinearInterpolator, [-1] * dims, [1] * dims, orders, values)
    require(as_np(call(default, points)).dtype == np.float64, "the default precision is not double")
    rec.label("asked %s, values %s, points %s" % (asked, case["values"], case["points"]))
    rec.mark(len({case["asked"], case["values"], case["points"]}) > 1)


SUBCHECKS = [
    Sub("swaths", cases(pipelines.full(pipelines.LEGACY + pipelines.SIMPLE * 2 + pipelines.CVIIRS * 2, max_scans=1,
                                       zeniths=["scan", "scan", "zero", "constant"])), check, quick=1080, thorough=8000,
        rule="the swath is at a pole, the antimeridian, the Greenwich meridian, the equator or the latitude branch"),
    Sub("grids", cases(pipelines.small(lonlat_vii=True)), check, quick=2700, thorough=30000,
        rule="the swath is at a pole, the antimeridian, the Greenwich meridian, the equator or the latitude branch"),
    Sub("numeric", numeric_cases(), check_numeric, quick=1800, thorough=10000, rule="every case"),
    Sub("dtype", dtype_cases(), check_dtype, quick=900, thorough=10000, rule="the precisions differ"),
]
SETTINGS = {"technique": "differential property-based testing (Hypothesis): the same numbers in both precisions"}
