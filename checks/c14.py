"""Simple MODIS interpolation is scan-wise bilinear with linear edge continuation."""
import numpy as np
from hypothesis import strategies as st

from checks import pipelines
from lib import gen, models
from lib.core import Sub, as_np, check_shape, require


@st.composite
def cases(draw):
    case = draw(pipelines.with_swath(pipelines.full(pipelines.SIMPLE, max_scans=4)))
    case["layout"] = draw(st.sampled_from(["C", "C", "F", "strided", "reversed", "readonly"]))
    if draw(st.booleans()):
        case["cfg"]["width"] = draw(st.integers(2, 60))
    return case


@st.composite
def long_cases(draw):
    """As many scans as a granule has, and more, of a few columns."""
    case = draw(cases())
    case["cfg"]["width"] = draw(st.sampled_from([2, 2, 3, 5]))
    case["cfg"]["scans"] = draw(st.one_of(st.integers(5, 300), st.sampled_from([203, 127, 128, 255, 256, 257])))
    return case


@st.composite
def wide_cases(draw):
    case = draw(cases())
    case["cfg"]["width"] = draw(st.one_of(st.integers(61, 3000), st.sampled_from([1354, 2048, 4096, 33000])))
    case["cfg"]["scans"] = draw(st.integers(1, 2)) if case["cfg"]["width"] < 5000 else 1
    return case


def check(case, rec):
    pipe = pipelines.build(case)
    name = case["pipe"]
    lon, lat = gen.make_swath(case["swath"], pipe.rows, pipe.cols)
    dtype = np.dtype(case["dtype"])
    lon, lat = lon.astype(dtype), lat.astype(dtype)
    res = pipe.run(*[gen.layout(a, case["layout"]) for a in (lon, lat)])
    require(len(res) == 2, "%s returned %d arrays" % (name, len(res)))
    fine = 500 if "500m" in name else 250
    f = 1000 // fine
    for arr, what in zip(res, ("longitude", "latitude")):
        check_shape(as_np(arr), (pipe.rows * f, pipe.cols * f), what)
        require(as_np(arr).dtype == dtype, "%s of %s for input of %s" % (what, as_np(arr).dtype, dtype))
    f64 = dtype == np.float64
    eps = float(np.finfo(dtype).eps)
    xyz = np.moveaxis(models.simple_modis(lon, lat, fine), -1, 0)
    # bilinear weights of rounded positions, slopes from differences of rounded coordinates
    tol = 40 * eps * models.R_EARTH + 1e-5
    ratio = models.check_places_xyz(res[0], res[1], xyz, tol, name, fuzz=1e-9 if f64 else 1e-5)
    rec.notes["error / tolerance " + case["dtype"]] = ratio
    rec.label(name, case["dtype"], "width %s" % ("full" if pipe.cols == 1354 else "2" if pipe.cols == 2 else "other"),
              case["layout"], "scans=%s" % (case["cfg"]["scans"] if case["cfg"]["scans"] < 5 else "many"))
    special = gen.classify(rec, lon, lat)
    rec.mark(special > 0 or bool(case["swath"].get("noise")))


RULE = "a swath at a special place, or irregular"
SUBCHECKS = [Sub("reference", cases(), check, quick=1800, thorough=15000, rule=RULE),
             Sub("long", long_cases(), check, quick=600, thorough=5000, rule=RULE),
             Sub("wide", wide_cases(), check, quick=180, thorough=2000, rule=RULE)]
SETTINGS = {"technique": "property-based testing (Hypothesis) against a double precision reference model"}
