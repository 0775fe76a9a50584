"""Interpolated MODIS pixels lie where the instrument looked (ray tracing on a sphere)."""
import numpy as np
from hypothesis import strategies as st

from checks import pipelines
from lib import gen
from lib.core import Sub, as_np, call, check_lonlat_range, check_shape, distance, require, to_lonlat

R = 6370.997        # km
IFOV = 1.4184e-3    # rad, 1km pixel
SWATH = 10.0        # km along track per scan


def looks(case, rows, cols, altitude):
    """Ground points (lon, lat) and zenith angles of the lines of sight at 1km (fractional) rows x columns of a scan.

    rows: list of arrays, one per scan.
    """
    up, along, across = gen.frame(*case["place"], case["az"])
    alpha = (np.asarray(cols) - 676.5) * IFOV
    alpha = alpha[None, :]
    lons, lats, sats = [], [], []
    for num, part in enumerate(rows):
        beta = ((np.asarray(part) - 4.5) * IFOV * case["down_track"])[:, None]
        turn = num * SWATH / R
        u = np.cos(turn) * up + np.sin(turn) * along
        v = np.cos(turn) * along - np.sin(turn) * up
        sat = (R + altitude) * u
        los = (np.cos(alpha) * np.cos(beta))[..., None] * -u + (np.cos(alpha) * np.sin(beta))[..., None] * v \
            + (np.sin(alpha) * np.ones_like(beta))[..., None] * across
        cosang = -(los @ u)
        dist = (R + altitude) * cosang - np.sqrt(R ** 2 - (R + altitude) ** 2 * (1 - cosang ** 2))
        ground = sat + dist[..., None] * los
        normal = ground / R
        cosz = -(los * normal).sum(-1)
        sats.append(np.rad2deg(np.arccos(np.clip(cosz, -1, 1))))
        lon, lat = to_lonlat(normal)
        lons.append(lon)
        lats.append(lat)
    return np.concatenate(lons), np.concatenate(lats), np.concatenate(sats)


def grids(coarse, fine, width, scans, phase=None):
    """Tie rows/columns and fine rows/columns in 1km pixels of a scan (phase: column sampling of the legacy code)."""
    f = 1000 // fine
    if coarse == 1000:
        trow, tcol = np.arange(10.0), np.arange(1354.0)
    else:
        trow, tcol = np.array([2.0, 7.0]), np.arange(width) * 5.0 + 2
    frow = (np.arange(10 * f) + 0.5) / f - 0.5
    fcol = np.arange(1354 * f) / f
    return [trow] * scans, tcol, [frow] * scans, fcol


# metres: anywhere, without the last columns (extrapolated), around nadir; half again as much as the worst seen in a
# sweep of the whole domain, in double precision.  Pixels are 250 m to 4.8 km wide.
BOUNDS = {"modis_1km": (6.0, 2.0, 0.3), "modis_5km": (75.0, 42.0, 4.5), "270": (320.0, 190.0, 4.5),
          "simple": (45.0, 9.0, 0.3), "modis1km": (45.0, 3.0, 0.3), "modis5km": (450.0, 135.0, 4.0)}
SINGLE = (5.0, 4.0, 4.5)     # added in single precision


@st.composite
def cases(draw):
    pipe = draw(st.sampled_from(pipelines.CVIIRS * 2 + pipelines.SIMPLE + pipelines.LEGACY[1:]))
    case = {"pipe": pipe, "place": draw(gen.places), "az": draw(gen.azimuths), "scans": draw(st.integers(1, 2)),
            "down_track": draw(st.sampled_from([1.0, -1.0])), "altitude": draw(st.integers(700, 715)),
            "dtype": draw(gen.dtypes)}
    if pipe in pipelines.CVIIRS:
        case["digits"] = draw(st.sampled_from([None, 2]))
        if "5km" in pipe:
            case["width"] = draw(st.sampled_from([271, 271, 270]))
    return case


def check(case, rec):
    name = case["pipe"]
    coarse = 5000 if "5km" in name else 1000
    fine = {"1km": 1000, "500m": 500, "250m": 250}[name.split("to")[-1].strip("_")]
    width = case.get("width", 271)
    f = 1000 // fine
    trow, tcol, frow, fcol = grids(coarse, fine, width, case["scans"])
    lon, lat, satz = looks(case, trow, tcol, case["altitude"])
    elon, elat, _ = looks(case, frow, fcol, case["altitude"])
    dtype = np.dtype(case["dtype"])
    lon, lat = lon.astype(dtype), lat.astype(dtype)
    simple = None
    if name in pipelines.CVIIRS:
        if case["digits"]:
            satz = np.round(satz, case["digits"])
        res = call(pipelines.cviirs_func(name), lon.copy(), lat.copy(), satz.astype(dtype))
        if coarse == 1000:
            simple = call(pipelines.simple_func(name.replace("modis", "simple")), lon.copy(), lat.copy())
    elif name in pipelines.SIMPLE:
        res = call(pipelines.simple_func(name), lon, lat)
    else:
        res = call(pipelines.legacy_func(name), lon, lat)
    require(len(res) == 2, "%d results" % len(res))
    for arr, what in zip(res, ("longitude", "latitude")):
        check_shape(as_np(arr), elon.shape, what)
    check_lonlat_range(res[0], res[1], name)
    dist = distance(res[0], res[1], elon, elat)
    key = "270" if width == 270 else next(k for k in BOUNDS if name.startswith(k))
    bounds = [b + (s if dtype == np.float32 else 0) for b, s in zip(BOUNDS[key], SINGLE)]
    n = dist.shape[1]
    inner = slice(3 * f, n - 2 * f), slice(n // 2 - 50 * f, n // 2 + 50 * f)
    parts = [dist, dist[:, inner[0]], dist[:, inner[1]]]
    for part, bound, what in zip(parts, bounds, ("everywhere", "off the edges", "near nadir")):
        worst = float(np.where(np.isnan(part), np.inf, part).max())
        require(worst <= bound, "%s: a pixel is %.4g m from where the instrument looked (%s, at most %.3g m expected)"
                % (name, worst, what, bound))
        rec.notes["%s %s %s" % (key, what, case["dtype"])] = worst
    if simple is not None and dtype == np.float64:
        sdist = distance(simple[0], simple[1], elon, elat)
        outer = np.r_[3 * f:150 * f, n - 150 * f:n - 2 * f]
        mine, other = dist[:, outer].max(), sdist[:, outer].max()
        require(mine < 0.6 * other, "%s is %.3g m off towards the edges, without zenith angles %.3g m"
                % (name, mine, other))
        rec.notes["error relative to the simple interpolation"] = float(mine / other)
        rec.label("compared with the simple interpolation")
    rec.label(name, case["dtype"], "width %d" % (width if coarse == 5000 else 1354),
              "altitude %s 709 km" % ("above" if case["altitude"] > 709 else "up to"))
    gen.classify(rec, lon, lat)
    rec.mark()


SUBCHECKS = [Sub("ray_tracing", cases(), check, quick=1440, thorough=9000, rule="every case (a full swath anywhere)")]
SETTINGS = {"technique": "property-based testing (Hypothesis) against ray-traced ground truth",
            "assumptions": ["spherical Earth, sensor at 700 to 715 km, no motion during a scan line"]}
