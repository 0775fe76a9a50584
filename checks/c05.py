"""Geolocation results follow rotations and mirrorings of the Earth."""
import numpy as np
from hypothesis import strategies as st

from checks import pipelines
from lib import gen
from lib.core import Sub, as_np, check_places, wrap180

SHIFTS = [0.0, 180.0, -180.0, 360.0, 90.0, -90.0, 179.99, -0.01, 45.0, 270.0]


@st.composite
def cases(draw, pipes):
    case = draw(pipelines.with_swath(pipes))
    if case["pipe"] == "vii" and draw(st.booleans()):
        case["cfg"]["lat_threshold"] = 60.0     # the default: plain longitudes and latitudes where they will do
    case["shift"] = draw(st.one_of(st.sampled_from(SHIFTS), gen.dec(-360, 360)))
    if draw(st.integers(0, 2)) == 0:
        # put a meridian right on the swath's own place: seams end up on tie points
        case["shift"] = round(draw(st.sampled_from([180.0, 0.0, 90.0])) - case["swath"]["lon0"], 6)
    case["wrap"] = draw(st.sampled_from(["none", "180", "360"]))
    case["flip_lon"] = draw(st.booleans()) and draw(st.booleans())
    case["flip_lat"] = draw(st.booleans()) and draw(st.booleans())
    # the instrument's own scene: move it so that it touches something first
    return case


def distances(lon, lat, axis):
    """Metres between neighbouring tie points."""
    lo, la = np.deg2rad(lon.astype(np.float64)), np.deg2rad(lat.astype(np.float64))
    xyz = 6371000.0 * np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
    return np.sqrt((np.diff(xyz, axis=axis + 1) ** 2).sum(axis=0))


def wrap(lon, how):
    if how == "180":
        return wrap180(lon)
    if how == "360":
        return lon % 360.0
    return lon


def check(case, rec):
    pipe = pipelines.build(case)
    lon, lat = gen.make_swath(case["swath"], pipe.rows, pipe.cols)
    dtype = np.dtype(case["dtype"])
    lon, lat = lon.astype(dtype), lat.astype(dtype)
    sign_lon = -1 if case["flip_lon"] else 1
    sign_lat = -1 if case["flip_lat"] else 1
    lon2 = wrap(sign_lon * lon.astype(np.float64) + case["shift"], case["wrap"]).astype(dtype)
    lat2 = (sign_lat * lat).astype(dtype)
    lon_a, lat_a = pipe.run(lon.copy(), lat.copy())
    lon_b, lat_b = pipe.run(lon2, lat2)
    lon_a, lat_a = as_np(lon_a).astype(np.float64), as_np(lat_a).astype(np.float64)
    elon, elat = sign_lon * lon_a + case["shift"], sign_lat * lat_a
    # rounding of the places and angles themselves (differently in both), as far as the interpolation lets it grow
    tol = 1e-3 if dtype == np.float64 else 10.0 + 15.0 * pipelines.weights(case["cfg"])
    if case["cfg"].get("lat_threshold", -1) > 0:
        # interpolated longitudes keep the convention of the tie points
        lon_a, lon_b = wrap180(lon_a), wrap180(as_np(lon_b).astype(np.float64))
        # straight lines on the map and on the globe are not the same, but no pixel leaves its cell
        tol += 0.25 * max(distances(lon, lat, axis).max() for axis in (0, 1))
        rec.label("VII with the default threshold")
    worst = check_places(lon_b, lat_b, elon, elat, tol, "%s of the moved swath" % case["pipe"])
    # the first result has to be a pair of places, too (both could be wrong in the same way)
    check_places(lon_a, lat_a, lon_a, lat_a, tol, case["pipe"])
    rec.notes["metres " + case["dtype"]] = worst
    special = gen.classify(rec, lon, lat) + gen.classify(rec, lon2, lat2)
    if (np.abs(lon2 - lon2[:1, :1]) > 180).any() != (np.abs(lon - lon[:1, :1]) > 180).any():
        rec.label("antimeridian crossed by one of both")
    rec.label(case["pipe"], case["dtype"], "wrap " + case["wrap"])
    rec.mark(special > 0 and (case["shift"] % 360 != 0 or case["flip_lon"] or case["flip_lat"]))


RULE = "the swath is moved or mirrored, and touches a special meridian, pole, equator or branch before or afterwards"
SUBCHECKS = [
    Sub("generic", cases(pipelines.small(ties=False)), check, quick=3600, thorough=40000, rule=RULE),
    Sub("instrument", cases(pipelines.full(zeniths=pipelines.CALM)), check, quick=720, thorough=9000, rule=RULE),
]
SETTINGS = {"technique": "metamorphic property-based testing (Hypothesis): rotated and mirrored swaths"}
