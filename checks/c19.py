"""VII tie-point interpolation is bilinear within each scan."""
import dask
import dask.array as da
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from lib import gen, models
from lib.core import Sub, as_np, call, check_close, check_shape, require


@st.composite
def cases(draw):
    per = draw(st.integers(2, 6))
    rows, cols = per * draw(st.integers(1, 5)), draw(st.integers(2, 9))
    n = draw(st.integers(1, 4))
    case = {"per_scan": per, "rows": rows, "cols": cols, "factor": draw(st.sampled_from([1, 2, 3, 4, 5, 7, 8])),
            "dims": draw(st.sampled_from([["y", "x"], ["x", "y"], ["num_tie_points_alt", "num_tie_points_act"]])),
            "seed": draw(gen.seeds), "arrays": []}
    for _ in range(n):
        arr = {"kind": draw(st.sampled_from(["random", "random", "affine", "impulse", "scan steps", "large"])),
               "dtype": draw(st.sampled_from(["float64", "float64", "float32"])),
               "coords": draw(st.sampled_from([False, False, True]))}
        if draw(st.booleans()):
            arr["chunks"] = [chunks(draw, rows), chunks(draw, cols)]
        case["arrays"].append(arr)
    case["tuple"] = draw(st.booleans())
    return case


@st.composite
def long_cases(draw):
    """Granules as large as real ones (VII: 4 tie rows per scan, hundreds of scans), and larger ones."""
    per = draw(st.sampled_from([2, 3, 4, 4, 8]))
    rows = per * draw(st.one_of(st.integers(30, 600), st.sampled_from([600, 1100, 2100])))
    cols = draw(st.integers(2, 3))
    turned = draw(st.integers(0, 2)) == 0
    factor = draw(st.sampled_from([2, 7, 8, 8]))
    if turned:
        rows, cols, per = per * draw(st.integers(1, 2)), rows, per
    arr = {"kind": draw(st.sampled_from(["random", "affine", "scan steps"])), "coords": False,
           "dtype": draw(st.sampled_from(["float64", "float32"]))}
    return {"per_scan": per, "rows": rows, "cols": cols, "factor": factor, "dims": ["y", "x"], "seed": draw(gen.seeds),
            "arrays": [arr], "tuple": False}


def chunks(draw, total):
    return gen.chunks_of(draw, total) or [total]


def make(spec, num, case):
    rng = np.random.default_rng([case["seed"], num])
    rows, cols = case["rows"], case["cols"]
    r, c = np.meshgrid(np.arange(rows), np.arange(cols), indexing="ij")
    if spec["kind"] == "affine":
        arr = 3.0 + num + 0.5 * r - 0.25 * c
    elif spec["kind"] == "impulse":
        arr = np.zeros((rows, cols))
        arr[rng.integers(0, rows), rng.integers(0, cols)] = 1.0
    elif spec["kind"] == "scan steps":
        arr = 1000.0 * (r // case["per_scan"]) + rng.normal(size=(rows, cols))
    elif spec["kind"] == "large":
        arr = 6.4e6 + rng.normal(size=(rows, cols)) * 1e3
    else:
        arr = rng.normal(size=(rows, cols))
    return np.asarray(arr, dtype=spec["dtype"])


def check(case, rec):
    from geotiepoints.viiinterpolator import tie_points_interpolation
    per, factor, dims = case["per_scan"], case["factor"], case["dims"]
    arrays = [make(spec, num, case) for num, spec in enumerate(case["arrays"])]
    args = []
    for arr, spec in zip(arrays, case["arrays"]):
        data = arr.copy()
        if "chunks" in spec:
            data = da.from_array(data, chunks=tuple(map(tuple, spec["chunks"])))
        kwargs = {}
        if spec["coords"]:
            kwargs["coords"] = {dims[0]: np.arange(case["rows"])[::-1] * 2.0, dims[1]: np.arange(case["cols"]) + 0.5}
        args.append(xr.DataArray(data, dims=dims, attrs={"units": "m"}, **kwargs))
    given = tuple(args) if case["tuple"] else args
    res = call(tie_points_interpolation, given, per, factor)
    require(len(res) == len(args), "%d results for %d arrays" % (len(res), len(args)))
    scans = case["rows"] // per
    shape = (scans * (per - 1) * factor, (case["cols"] - 1) * factor)
    with dask.config.set(scheduler="synchronous"):
        for num, (out, arr, spec) in enumerate(zip(res, arrays, case["arrays"])):
            what = "array %d" % num
            require(isinstance(out, xr.DataArray), "%s is a %s" % (what, type(out).__name__))
            require(list(out.dims) == dims, "%s has dimensions %s instead of %s" % (what, out.dims, dims))
            check_shape(out, shape, what)
            if "chunks" in spec:
                require(isinstance(out.data, da.Array), "%s is no longer lazy" % what)
            values = as_np(call(out.compute))
            eps = float(np.finfo(spec["dtype"]).eps)
            tol = 16 * eps * np.abs(arr).max() + 1e-300
            expected = models.vii(arr, per, factor)
            rec.notes["error in rounding units " + spec["dtype"]] = check_close(
                values, expected, tol, what) / (tol or 1)
    rec.label("scans=%d" % scans if scans < 6 else "many scans", "wide" if case["cols"] > 9 else "narrow", "factor=%d" % factor, "per scan %d" % per, "arrays=%d" % len(args),
              *[a["kind"] for a in case["arrays"]])
    lazy = {"chunks" in a for a in case["arrays"]}
    rec.label("mixed" if len(lazy) > 1 else "lazy" if lazy == {True} else "in memory")
    rec.mark(factor > 1)


SUBCHECKS = [Sub("bilinear", cases(), check, quick=4000, thorough=30000,
                 rule="a factor above one (pixels between tie points)"),
             Sub("long", long_cases(), check, quick=240, thorough=3000, rule="every case (a factor above one)")]
SETTINGS = {"technique": "property-based testing (Hypothesis) against an explicit bilinear formula"}
