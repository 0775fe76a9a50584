"""Zenith-angle MODIS interpolation follows the CVIIRS scheme exactly."""
import numpy as np
from hypothesis import strategies as st

from checks import pipelines
from lib import gen, models
from lib.core import Sub, as_np, check_shape, require


@st.composite
def cases(draw):
    case = draw(pipelines.with_swath(pipelines.full(pipelines.CVIIRS, max_scans=3)))
    kinds = st.sampled_from(["C", "C", "F", "strided", "reversed", "readonly"])
    # the same for all arrays, or one each
    case["layouts"] = draw(kinds.map(lambda k: [k] * 3) | st.tuples(kinds, kinds, kinds).map(list))
    if draw(st.integers(0, 5)) == 0:
        case["cfg"]["scans"] = draw(st.integers(4, 9))
    return case


def check(case, rec):
    pipe = pipelines.build(case)
    name = case["pipe"]
    lon, lat = gen.make_swath(case["swath"], pipe.rows, pipe.cols)
    dtype = np.dtype(case["dtype"])
    lon, lat = lon.astype(dtype), lat.astype(dtype)
    satz = pipe.satz.astype(dtype)
    args = [gen.layout(a, kind) for a, kind in zip((lon, lat, satz), case["layouts"])]
    res = pipe.run(*args)
    require(len(res) == 2, "%s returned %d arrays" % (name, len(res)))
    coarse, fine = pipelines.cviirs_config(name)
    shape = (pipe.rows * coarse // fine, 1354 * 1000 // fine)
    for arr, what in zip(res, ("longitude", "latitude")):
        check_shape(as_np(arr), shape, what)
        require(as_np(arr).dtype == dtype, "%s of %s for input of %s" % (what, as_np(arr).dtype, dtype))
    eps = float(np.finfo(dtype).eps)
    xyz, tol = models.cviirs(lon, lat, satz, coarse, fine, eps)
    xyz = np.moveaxis(xyz, -1, 0)
    # angles in degrees are rounded, too
    tol = tol + 6 * eps * models.R_EARTH + 1e-3
    f64 = dtype == np.float64
    ratio = models.check_places_xyz(res[0], res[1], xyz, tol, name, fuzz=1e-9 if f64 else 2e-6)
    rec.notes["error / rounding bound " + case["dtype"]] = ratio
    rec.notes["rounding bound (m) %s, zenith angles %s" % (case["dtype"], case["cfg"]["zen"])] = float(tol.max())
    rec.label(name, case["dtype"], "zenith " + case["cfg"]["zen"], "columns=%d" % pipe.cols, *set(case["layouts"]),
              "scans=%d" % case["cfg"]["scans"])
    gen.classify(rec, lon, lat)
    rec.mark(case["cfg"]["zen"] != "zero")


SUBCHECKS = [Sub("reference", cases(), check, quick=1260, thorough=9000,
                 rule="zenith angles that are not all zero (the corrections are in use)")]
SETTINGS = {"technique": "property-based testing (Hypothesis) against a double precision reference of the CVIIRS scheme",
            "assumptions": ["zenith angles between 0 and 80 degrees"]}
