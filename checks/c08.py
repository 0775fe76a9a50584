"""Predefined swath functions put every pixel at its documented place."""
import numpy as np
from geotiepoints.interpolator import generic_modis5kmto1km
from hypothesis import strategies as st

from checks import pipelines
from lib import gen, models
from lib.core import Sub, as_np, call, check_close, check_shape, require

# documented positions: tie columns, fine columns, tie rows and fine rows (in tie row units) per scan
MODIS_COLS = 1354


def geometry(name, rows):
    """Tie rows, tie cols, fine rows, fine cols (units of the tie grid of 1 km or the pixels), rows of a chunk."""
    if name == "metop20kmto1km":
        cols = [0] + list(range(4, 2048, 20)) + [2047]
        return np.arange(rows), cols, np.arange(rows), np.arange(2048), 0, ()
    if name in ("modis5kmto1km", "generic"):
        return (np.arange(rows) * 5 + 2, np.arange(271) * 5 + 2, np.arange(rows * 5), np.arange(MODIS_COLS), 10,
                ("y", "x"))
    f = 2 if name == "modis1kmto500m" else 4
    fine_rows = (np.arange(rows * f) + 0.5) / f - 0.5
    return np.arange(rows), np.arange(MODIS_COLS), fine_rows, np.arange(MODIS_COLS * f) / f, 10 * f, ("y", "x")


def model(name, data):
    rows, cols, frows, fcols, chunk, dims = geometry(name, data.shape[0])
    return models.filled_spline(rows, cols, data, frows, fcols, 1, 3, chunk, dims)


def check(case, rec):
    pipe = pipelines.build(case)
    name = case["pipe"]
    lon, lat = gen.make_swath(case["swath"], pipe.rows, pipe.cols)
    dtype = np.dtype(case["dtype"])
    lon, lat = lon.astype(dtype), lat.astype(dtype)
    res = pipe.run(lon.copy(), lat.copy())
    require(len(res) == 2, "%s returned %d arrays" % (name, len(res)))
    xyz = [model(name, c) for c in models.lonlat2xyz(lon, lat)]
    f64 = dtype == np.float64
    ratio = models.check_places_xyz(res[0], res[1], xyz, 1e-3 if f64 else 40.0, name,
                                    fuzz=1e-9 if f64 else 1e-5)
    rec.notes["metres/tolerance " + case["dtype"]] = ratio
    rec.label(name, case["dtype"], "rows=%d" % pipe.rows)
    special = gen.classify(rec, lon, lat)
    rec.mark(special > 0 or bool(case["swath"].get("noise")) or case["swath"]["bend"] != 0)


@st.composite
def generic_cases(draw):
    return {"scans": draw(st.integers(1, 4)), "n": draw(st.integers(1, 3)), "seed": draw(gen.seeds),
            "dtype": draw(gen.dtypes), "data": draw(st.sampled_from(["random", "affine", "smooth"])),
            "swath": draw(st.one_of(st.none(), gen.swaths(step=(0.045, 0.06))))}


def check_generic(case, rec):
    dtype = np.dtype(case["dtype"])
    rows = 2 * case["scans"]
    rng = np.random.default_rng(case["seed"])
    rec.label(case["data"] if case["swath"] is None else "swath", "scans=%d" % case["scans"], case["dtype"])
    rec.mark(True)
    i, j = np.arange(rows)[:, None] * 5.0 + 2, np.arange(271)[None, :] * 5.0 + 2
    fi, fj = np.arange(rows * 5)[:, None] * 1.0, np.arange(MODIS_COLS)[None, :] * 1.0
    exact = []
    if case["swath"] is not None:
        lon, lat = gen.make_swath(case["swath"], rows, 271)
        arrays = list(models.lonlat2xyz(lon, lat))
        dtype = np.dtype("float64")
    else:
        arrays = []
        for _ in range(case["n"]):
            a, b, c = rng.uniform(-1, 1, 3)
            if case["data"] == "affine":
                arrays.append(a + b * i + c * j)
                exact.append(a + b * fi + c * fj)
            elif case["data"] == "smooth":
                arrays.append(np.sin(a * 6 + j / 200.0) * np.cos(b + i / 9.0) + c)
            else:
                arrays.append(rng.normal(size=(rows, 271)))
        arrays = [a.astype(dtype) for a in arrays]
        exact = [e for e in exact]
    res = call(generic_modis5kmto1km, *[a.copy() for a in arrays])
    require(len(res) == len(arrays), "%d results for %d arrays" % (len(res), len(arrays)))
    eps = 1e-10 if dtype == np.float64 else 1e-5
    for num, (got, data) in enumerate(zip(res, arrays)):
        got = as_np(got)
        check_shape(got, (rows * 5, MODIS_COLS), "result %d" % num)
        expected = model("generic", data)
        check_close(got, expected, eps * max(1.0, np.abs(expected).max()), "generic 5km to 1km, array %d" % num)
        if exact:
            check_close(got, exact[num], 20 * eps * max(1.0, np.abs(exact[num]).max()), "affine data, array %d" % num)
    if case["swath"] is not None:
        from geotiepoints import modis5kmto1km
        lon1, lat1 = call(modis5kmto1km, lon, lat)
        models.check_places_xyz(lon1, lat1, [as_np(r) for r in res], 1e-2, "geographic and generic 5km to 1km")


SUBCHECKS = [
    Sub("geographic", pipelines.with_swath(pipelines.full(pipelines.LEGACY, max_scans=4)), check, quick=900,
        thorough=9000, rule="a swath at a special place, irregular or bent"),
    Sub("generic", generic_cases(), check_generic, quick=900, thorough=9000, rule="every case"),
]
SETTINGS = {"technique": "property-based testing (Hypothesis) against a reference model of the documented geometry"}
