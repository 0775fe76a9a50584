"""Longitude/latitude and Cartesian coordinates convert back and forth."""
import dask.array as da
import numpy as np
import xarray as xr
from geotiepoints.geointerpolator import EARTH_RADIUS, lonlat2xyz, xyz2lonlat
from hypothesis import strategies as st

from lib import gen, models
from lib.core import Sub, call, check_close, check_lonlat_range, check_shape, distance, require

lon_any = st.one_of(st.sampled_from([0.0, 180.0, -180.0, 360.0, 90.0, -90.0, 270.0, 179.99999, -179.99999, 1e-5, -1e-5,
                                     180.00001, 359.99999]), gen.dec(-180, 360), gen.dec(-180, 360, 5),
                    st.floats(-180, 360, allow_nan=False, allow_subnormal=False))
lat_any = st.one_of(st.sampled_from([0.0, 90.0, -90.0, 1e-5, -1e-5, 89.99999, -89.99999, 53.13010235, -53.13010235,
                                     1e-9, -0.0]), gen.dec(-90, 90), gen.dec(-90, 90, 5),
                    st.floats(-90, 90, allow_nan=False, allow_subnormal=False))


@st.composite
def cases(draw):
    return {"pts": draw(st.lists(st.tuples(lon_any, lat_any).map(list), min_size=1, max_size=8)),
            "bulk": draw(st.sampled_from([0, 20, 300])), "seed": draw(gen.seeds),
            "bulkkind": draw(st.sampled_from(["globe", "equator", "poles", "antimeridian", "greenwich", "threshold"])),
            "dtype": draw(gen.dtypes),
            "radius": draw(st.sampled_from([None, None, 1.0, 6371.0, 6378137.0])),
            "thr": draw(st.sampled_from([None, None, 0.0, 0.5, 0.8, 0.95, 1.0, 1.5])),
            "low_lat_z": draw(st.sampled_from([None, True, False])),
            "shape": draw(st.sampled_from(["1d", "2d", "3d", "scalar"])),
            "box": draw(st.sampled_from(["array", "array", "readonly", "strided", "dask", "labelled", "labelled dask"])),
            "turn": draw(st.sampled_from([0, 0, 0, -360, 360])),
            "types": draw(st.sampled_from(["same", "same", "same", "mixed", "whole degrees"]))}


def boxed(arr, kind):
    """The coordinates in a container."""
    if not arr.ndim:
        return arr
    if kind == "readonly":
        arr = arr.copy()
        arr.flags.writeable = False
    elif kind == "strided":
        big = np.full((3,) + arr.shape, 7.0, dtype=arr.dtype)
        big = np.moveaxis(big, 0, -1)
        big[..., 1] = arr
        arr = big[..., 1]
    if "dask" in kind:
        arr = da.from_array(arr, chunks=tuple(n // 2 + 1 for n in arr.shape))
    if "labelled" in kind:
        arr = xr.DataArray(arr, dims=("time", "y", "x")[:arr.ndim])
    return arr


def bulk_points(kind, n, seed):
    rng = np.random.default_rng(seed)
    lon = rng.uniform(-180, 360, n)
    lat = np.rad2deg(np.arcsin(rng.uniform(-1, 1, n)))
    tiny = rng.uniform(-1, 1, n) * 10.0 ** rng.integers(-12, 1, n)
    if kind == "equator":
        lat = tiny
    elif kind == "poles":
        lat = np.sign(lat) * (90 - np.abs(tiny))
    elif kind == "antimeridian":
        lon = 180.0 + tiny
        lon[::2] = np.where(lon[::2] > 180, lon[::2] - 360, lon[::2])
    elif kind == "greenwich":
        lon = tiny
    elif kind == "threshold":
        lat = np.sign(lat) * (np.rad2deg(np.arcsin(0.8)) + tiny)
    return lon, lat


def latitude_error(lat, delta, use_z, use_r):
    """Largest error (radians) of a latitude derived from a sine or cosine that is off by delta."""
    s, c = np.sin(lat), np.cos(lat)
    err = np.zeros_like(lat)
    for sign in (-1, 1):
        if use_z is not None:
            e = np.abs(np.arcsin(np.clip(s + sign * delta, -1, 1)) - lat)
            err = np.maximum(err, np.where(use_z, e, 0))
        if use_r is not None:
            e = np.abs(np.arccos(np.clip(c + sign * delta, 0, 1)) - np.abs(lat))
            err = np.maximum(err, np.where(use_r, e, 0))
    # the sign of the latitude may be lost when it is within the error of zero
    return err


def check(case, rec):
    dtype = np.dtype(case["dtype"]).type
    eps = float(np.finfo(dtype).eps)
    lon = np.array([p[0] for p in case["pts"]])
    lat = np.array([p[1] for p in case["pts"]])
    if case["bulk"]:
        blon, blat = bulk_points(case["bulkkind"], case["bulk"], case["seed"])
        lon, lat = np.concatenate([lon, blon]), np.concatenate([lat, blat])
    lon = lon + case.get("turn", 0)
    types = case.get("types", "same")
    if types == "whole degrees":
        # integers are as good as any
        dtype, eps = np.float64, float(np.finfo(float).eps)
        lon, lat = np.rint(lon).astype("int64"), np.rint(lat).astype("int64")
    elif types == "mixed":
        # one in single precision, the other in double
        lon, lat = lon.astype("f8" if dtype == np.float32 else "f4"), lat.astype(dtype)
        dtype, eps = np.float32, float(np.finfo(np.float32).eps)
    else:
        lon, lat = lon.astype(dtype), lat.astype(dtype)
    if case["shape"] == "2d":
        lon, lat = lon[:, None], lat[:, None]
    elif case["shape"] == "3d":
        lon, lat = lon[None, :, None], lat[None, :, None]
    elif case["shape"] == "scalar":
        lon, lat = lon[0], lat[0]
    radius = case["radius"] or EARTH_RADIUS
    kw = {} if case["radius"] is None else {"radius": case["radius"]}
    lonr = np.deg2rad(np.asarray(lon, dtype=np.longdouble))
    latr = np.deg2rad(np.asarray(lat, dtype=np.longdouble))
    box = case.get("box", "array")
    xyz = call(lonlat2xyz, boxed(lon, box), boxed(lat, box), **kw)
    require(len(xyz) == 3, "lonlat2xyz returned %d arrays" % len(xyz))
    expected = (radius * np.cos(latr) * np.cos(lonr), radius * np.cos(latr) * np.sin(lonr), radius * np.sin(latr))
    for got, exp, name in zip(xyz, expected, "xyz"):
        got = np.asarray(got)
        check_shape(got, np.shape(lon), name)
        # deg2rad rounds the angles: an angle of size a moves by a few eps * a
        # the longitudes have no part in z
        own = float(np.finfo(lat.dtype).eps) if name == "z" and types == "mixed" else eps
        check_close(got, exp, own * radius * (8 + 4 * np.abs(lonr) + 4 * np.abs(latr)), name + " coordinate")
    opts = dict(kw)
    if case["thr"] is not None:
        opts["thr"] = case["thr"]
    if case["low_lat_z"] is not None:
        opts["low_lat_z"] = case["low_lat_z"]
    back = call(xyz2lonlat, *xyz, **opts)
    require(len(back) == 2, "xyz2lonlat returned %d arrays" % len(back))
    blon, blat = np.asarray(back[0]), np.asarray(back[1])
    check_shape(blon, np.shape(lon), "longitude")
    check_shape(blat, np.shape(lat), "latitude")
    check_lonlat_range(blon, blat, "round trip")
    thr = 0.8 if case["thr"] is None else case["thr"]
    sinlat = np.abs(np.sin(latr))
    from_z = case["low_lat_z"] in (None, True)
    use_z = (sinlat < thr + 8 * eps) if from_z else np.zeros(np.shape(lat), bool)
    use_r = (sinlat > thr - 8 * eps) if from_z else np.ones(np.shape(lat), bool)
    delta = 8 * eps
    tol = R = latitude_error(latr.astype(float), delta, use_z, use_r) + eps * 12
    tol = 6370997.0 * (2 * tol + eps * (np.abs(lonr) + np.abs(latr)) * 4).astype(float) + 1e-6
    dist = distance(blon, blat, lon, lat)
    bad = ~(dist <= tol)
    if np.any(bad):
        k = np.unravel_index(np.argmax(np.where(bad, np.nan_to_num(dist, nan=1e99), -1)), np.shape(dist))
        from lib.core import Violation
        raise Violation("round trip of (%r, %r) with %s gives (%r, %r): %g m off (tolerance %g)" % (
            float(np.asarray(lon)[k]), float(np.asarray(lat)[k]), opts, float(blon[k]), float(blat[k]),
            float(dist[k]), float(np.asarray(tol)[k])))
    rec.notes["distance / tolerance"] = float(np.max(dist / tol))
    rec.label(case["dtype"] if types == "same" else types, box, "turn=%d" % case.get("turn", 0), case["bulkkind"] if case["bulk"] else "single", "thr=%s" % case["thr"],
              "low_lat_z=%s" % case["low_lat_z"])
    rec.mark(bool(np.any(np.abs(np.asarray(lat)) > 0) or np.any(np.asarray(lon) != 0)))


SUBCHECKS = [Sub("roundtrip", cases(), check, quick=16000, thorough=120000,
                 rule="at least one point away from (0, 0)")]
SETTINGS = {"technique": "property-based testing (Hypothesis): closed-form model and round trip with conditioning bounds"}
