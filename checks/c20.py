"""VII geolocation interpolates on the globe when lon/lat would mislead."""
import dask
import dask.array as da
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from lib import gen, models
from lib.core import Sub, as_np, call, check_close, check_lonlat_range, check_shape, require

RADIUS = 6371008.7714


@st.composite
def cases(draw):
    case = {"per_scan": draw(st.integers(2, 4)), "scans": draw(st.integers(1, 3)), "cols": draw(st.integers(2, 7)),
            "factor": draw(st.sampled_from([1, 2, 3, 8])), "dtype": draw(st.sampled_from(["float64"] * 3 + ["float32"])),
            "lazy": draw(st.sampled_from([False, False, True])),
            "swath": draw(gen.swaths(step=draw(st.sampled_from([(1.0, 1.0), (0.1, 0.2), (5.0, 8.0), (10.0, 30.0)]))))}
    if draw(st.booleans()):
        case["thr"] = draw(st.one_of(st.sampled_from([0.0, 30.0, 60.0, 80.0, 85.0, 90.0, 91.0, -1.0]), gen.dec(0, 90),
                                     st.sampled_from(["max", "below max", "above max"])))
    if draw(st.integers(0, 2)) == 0:
        case["z_thr"] = draw(st.sampled_from([0.0, 0.2, 0.5, 0.8, 0.95, 1.0]))
    case["stretch"] = draw(st.sampled_from([None] * 4 + ["180", "180+", "180-"]))
    case["wrap"] = draw(st.sampled_from([180, 180, 180, 360]))
    if draw(st.integers(0, 3)) == 0:
        case["missing"] = draw(st.lists(st.tuples(st.integers(0, 11), st.integers(0, 6),
                                                  st.sampled_from(["both", "both", "lon", "lat"])),
                                        min_size=1, max_size=3))
    case["dims"] = draw(st.sampled_from([["alt", "act"], ["alt", "act"], ["y", "x"], ["x", "y"]]))
    case["layouts"] = [draw(gen.layouts), draw(gen.layouts)]
    if draw(st.integers(0, 4)) == 0:
        case["per_scan"] = draw(st.integers(5, 9))
        case["factor"] = draw(st.sampled_from([1, 4, 5, 6, 7]))
    return case


@st.composite
def long_cases(draw):
    """Granules as large as real ones, and larger."""
    case = draw(cases())
    case["swath"] = draw(gen.swaths(step=draw(st.sampled_from([(0.1, 0.2), (0.1, 1.0), (0.02, 0.2)]))))
    if draw(st.booleans()):
        case.update(per_scan=draw(st.sampled_from([4, 4, 5])), scans=draw(st.sampled_from([20, 60, 150, 400])),
                    cols=draw(st.integers(2, 4)))
    else:
        case.update(scans=draw(st.integers(1, 2)), cols=draw(st.sampled_from([20, 70, 139, 400])))
    return case


def drop(case, lon, lat):
    """Make tie points missing; the others decide how to interpolate."""
    for row, col, which in case.get("missing", ()):
        for arr, name in ((lon, "lon"), (lat, "lat")):
            if which in (name, "both"):
                arr[row % arr.shape[0], col % arr.shape[1]] = np.nan
    return bool(np.isfinite(lon).any() and np.isfinite(lat).any())


def without_missing(case, out, expected):
    """Results and expected values without the pixels that lack a tie point (C25 is about these)."""
    if not case.get("missing"):
        return out, expected
    lost = np.isnan(np.sum(expected, axis=0)) | np.isnan(np.sum(out, axis=0))
    return [np.where(lost, 0.5, a) for a in out], [np.where(lost, 0.5, a) for a in expected]


def check(case, rec):
    from geotiepoints.viiinterpolator import tie_points_geo_interpolation
    per, factor = case["per_scan"], case["factor"]
    lon, lat = gen.make_swath(case["swath"], per * case["scans"], case["cols"])
    if case["wrap"] == 360:
        lon = lon % 360
    if case["stretch"]:
        # a longitude span of exactly 180 degrees, or just above or below it
        span = {"180": 180.0, "180+": 180.5, "180-": 179.5}[case["stretch"]]
        lo, hi = lon.min(), lon.max()
        lon = np.round((lon - lo) / ((hi - lo) or 1) * span * 64) / 64 - 90
    dtype = np.dtype(case["dtype"])
    lon, lat = lon.astype(dtype), lat.astype(dtype)
    if not drop(case, lon, lat):
        rec.label("nothing but missing tie points")
        return
    kwargs, top = {}, float(np.nanmax(np.abs(lat)))
    thr, z_thr = 60.0, 0.8
    if "thr" in case:
        thr = case["thr"]
        if thr == "max":
            thr = top
        elif thr == "below max":
            thr = float(np.nextafter(lat.dtype.type(top), lat.dtype.type(-1)))
        elif thr == "above max":
            thr = float(np.nextafter(lat.dtype.type(top), lat.dtype.type(100)))
        kwargs["lat_threshold_use_cartesian"] = thr
    if "z_thr" in case:
        z_thr = case["z_thr"]
        kwargs["z_threshold_use_xy"] = z_thr
    span = np.nanmax(lon) - np.nanmin(lon)
    cartesian = top > thr or span > 180
    args = []
    dims = tuple(case.get("dims", ["alt", "act"]))
    for arr in (lon, lat):
        data = gen.layout(arr.copy(), case.get("layouts", ["C"])[-len(args)])
        if case["lazy"]:
            data = da.from_array(data, chunks=(per * (1 + case["scans"] // 8), max(2, case["cols"] // 5)))
        args.append(xr.DataArray(data, dims=dims))
    with dask.config.set(scheduler="synchronous"):
        res = call(tie_points_geo_interpolation, args[0], args[1], per, factor, **kwargs)
        require(len(res) == 2, "%d results" % len(res))
        shape = (case["scans"] * (per - 1) * factor, (case["cols"] - 1) * factor)
        out = []
        for arr, what in zip(res, ("longitude", "latitude")):
            require(isinstance(arr, xr.DataArray), "%s is a %s" % (what, type(arr).__name__))
            require(arr.dims == dims, "%s has dimensions %s" % (what, arr.dims))
            check_shape(arr, shape, what)
            out.append(as_np(call(arr.compute)))
    eps = float(np.finfo(dtype).eps)
    if not cartesian:
        out, expected = without_missing(case, out, [models.vii(tie, per, factor) for tie in (lon, lat)])
        for arr, exp, what in zip(out, expected, ("longitude", "latitude")):
            check_close(arr, exp, 16 * eps * 400, "%s (lon/lat interpolation)" % what)
    else:
        lo, la = np.deg2rad(lon.astype(float)), np.deg2rad(lat.astype(float))
        xyz = [RADIUS * np.cos(la) * np.cos(lo), RADIUS * np.cos(la) * np.sin(lo), RADIUS * np.sin(la)]
        fine = [models.vii(c, per, factor) for c in xyz]
        lost = np.isnan(sum(fine)) | np.isnan(sum(out)) & bool(case.get("missing"))
        fine = [np.where(lost, c, f) for c, f in zip((RADIUS, 0.0, 0.0), fine)]
        out = [np.where(lost, 0.0, o) for o in out]
        norm = np.sqrt(sum(c ** 2 for c in fine))
        # rounding of the coordinates, seen from the Earth's centre; the latitude rules amplify it near the pole and
        # the equator (the cosine is flat there)
        tol = tolerance(fine, eps, z_thr) * RADIUS / np.maximum(norm, 1) + 1e-3
        # the longitude of points near the axis of the Earth (those of wide granules are well inside)
        axis = np.hypot(fine[0], fine[1])
        tol = tol + 32 * eps * RADIUS * RADIUS / np.maximum(axis, 1)
        # a place is meaningless next to the Earth's centre, or next to the axis but far from a pole
        well = (norm > 0.05 * RADIUS) & ((axis > 0.05 * RADIUS) | (norm > 0.98 * RADIUS))
        # a threshold of 0 asks for sign(z), which is rounding, times a latitude from x and y
        well &= (np.abs(fine[2]) > 64 * eps * RADIUS) | (z_thr > 64 * eps)
        tol = np.where(well, tol, np.inf)
        check_lonlat_range(out[0], out[1], "VII geolocation")
        rec.notes["error / tolerance " + case["dtype"]] = models.check_places_xyz(
            out[0], out[1], fine, tol, "VII geolocation (Cartesian)", radius=RADIUS, thr=z_thr,
            fuzz=16 * eps, metric=RADIUS)
    rec.label("cartesian" if cartesian else "lon/lat", case["dtype"], "lazy" if case["lazy"] else "in memory",
              "own latitude threshold" if "thr" in case else "default", "own z threshold" if "z_thr" in case else "")
    if cartesian:
        rec.label("for the latitude" if top > thr else "for the span of longitudes")
    elif span > 179:
        rec.label("span of 180 degrees in lon/lat")
    if "thr" in case and abs(top - thr) < 1e-3:
        rec.label("latitude at the threshold")
    if case.get("missing"):
        rec.label("missing tie points")
    gen.classify(rec, lon, lat)
    rec.mark(cartesian or "thr" in case or case["stretch"])


def tolerance(fine, eps, z_thr):
    """Metres of rounding: of an arcsin or arccos of a relative coordinate q it is eps / sqrt(1 - q^2), at most sqrt."""
    x, y, z = fine
    rel_z, rel_r = np.abs(z) / RADIUS, np.hypot(x, y) / RADIUS

    def amplified(q):
        slope = np.sqrt(np.maximum(1 - np.minimum(q, 1) ** 2, 0))
        err = 16 * eps
        return np.minimum(err / np.maximum(slope, 1e-300), 2 * np.sqrt(err)) + err

    ang = np.where(rel_z < z_thr - 16 * eps, amplified(rel_z),
                   np.where(rel_z > z_thr + 16 * eps, amplified(rel_r), np.maximum(amplified(rel_z), amplified(rel_r))))
    return ang * RADIUS + 32 * eps * RADIUS


RULE = "Cartesian mode, a threshold given by the caller, or a span of longitudes of about 180 degrees"
SUBCHECKS = [Sub("geolocation", cases(), check, quick=3600, thorough=40000,
                 rule=RULE),
             Sub("long", long_cases(), check, quick=200, thorough=4000, rule=RULE)]
SETTINGS = {"technique": "property-based testing (Hypothesis) against a double precision model of both modes",
            "assumptions": ["interpolated points closer than 5 % of the radius to the Earth's centre, or to its axis if they are "
                            "far from the poles, have no direction"]}
