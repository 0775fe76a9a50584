"""Interpolated geolocation passes through the tie points."""
import numpy as np

from checks import pipelines
from lib import gen
from lib.core import Sub, check_places, check_shape, require


def check(case, rec):
    pipe = pipelines.build(case)
    lon, lat = gen.make_swath(case["swath"], pipe.rows, pipe.cols)
    dtype = np.dtype(case["dtype"])
    lon, lat = lon.astype(dtype), lat.astype(dtype)
    res = pipe.run(lon.copy(), lat.copy())
    require(len(res) == 2, "%s returned %d arrays" % (case["pipe"], len(res)))
    flon, flat = np.asarray(res[0]), np.asarray(res[1])
    require(flon.ndim == 2 and flon.shape == flat.shape, "longitude and latitude of different shapes")
    if pipe.fine_shape:
        check_shape(flon, pipe.fine_shape, "longitude")
    fr, fc, tr, tc = pipe.ties
    require(flon.shape[0] > fr.max() and flon.shape[1] > fc.max(), "result of shape %s is too small" % (flon.shape,))
    # rounding of metres on the Earth, of angles up to 180 degrees, and some for the spline's conditioning
    tol = 1e-3 if dtype == np.float64 else 15.0
    worst = check_places(flon[fr, fc], flat[fr, fc], lon[tr, tc], lat[tr, tc], tol, case["pipe"] + " at tie points")
    rec.notes["metres " + case["dtype"]] = worst
    special = gen.classify(rec, lon, lat)
    rec.label(case["pipe"], case["dtype"], case["swath"]["kind"])
    rec.mark(special > 0 or bool(case["swath"].get("noise")))


FULL = pipelines.full(("metop20kmto1km", "modis5kmto1km", "modis_5km_to_1km", "modis_5km_to_1km"), max_scans=3)
RULE = "the swath touches a special place (pole, antimeridian, equator, Greenwich, latitude branch) or is irregular"
SUBCHECKS = [
    Sub("generic", pipelines.with_swath(pipelines.small(lonlat_vii=True)), check, quick=6000, thorough=40000, rule=RULE),
    Sub("instrument", pipelines.with_swath(FULL), check, quick=1440, thorough=9000, rule=RULE),
]
SETTINGS = {"technique": "property-based testing (Hypothesis): interpolation condition at tie points, as distance on Earth"}
