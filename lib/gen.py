"""Generators shared by the checks: places, swaths, grids, containers."""
import numpy as np
from hypothesis import strategies as st

from lib.core import to_lonlat, wrap180

SPECIAL_LON = [0.0, 180.0, -180.0, 90.0, -90.0, 179.9, -179.95, 0.05, -0.05, 45.0, 135.0]
SPECIAL_LAT = [0.0, 90.0, -90.0, 89.9, -89.95, 60.0, -60.0, 53.130102, -53.130102, 0.05, -0.05, 80.0]

DTYPES = ["float64", "float32"]


def dec(lo, hi, digits=2):
    """Decimal numbers in [lo, hi] (short, shrink towards 0)."""
    scale = 10 ** digits
    return st.integers(int(np.ceil(lo * scale)), int(np.floor(hi * scale))).map(lambda i: i / scale)


lons = st.one_of(st.sampled_from(SPECIAL_LON), dec(-180, 180), dec(-180, 180, 0))
lats = st.one_of(st.sampled_from(SPECIAL_LAT), dec(-90, 90), dec(-90, 90, 0))
places = st.tuples(lons, lats).map(list)
seeds = st.integers(0, 2 ** 32 - 1)
dtypes = st.sampled_from(DTYPES)
azimuths = st.one_of(st.sampled_from([0, 90, 180, 270, 8, 172, -172]), st.integers(0, 359))


@st.composite
def swaths(draw, step=(0.05, 0.05), noise=True, plate=True, conv=True):
    """Parameters of a swath (see make_swath); steps are multiples of *step* degrees (row, column)."""
    lon0, lat0 = draw(places)
    par = {"lon0": lon0, "lat0": lat0,
           "sr": step[0] * draw(st.sampled_from([1.0, 0.5, 0.2, 2.0])),
           "sc": step[1] * draw(st.sampled_from([1.0, 0.5, 0.2, 2.0])),
           "bend": draw(st.sampled_from([0.0, 0.2, -0.3])),
           "ar": draw(st.sampled_from([0.5, 0.0, 1.0, 0.37])),
           "ac": draw(st.sampled_from([0.5, 0.0, 1.0, 0.37]))}
    if plate and abs(lat0) < 88.5 and draw(st.integers(0, 3)) == 0:
        par["kind"] = "plate"
        par["tilt"] = draw(st.sampled_from([0.0, 0.3, -0.5, 1.0]))
    else:
        par["kind"] = "tangent"
        par["az"] = draw(azimuths)
    if conv and draw(st.integers(0, 4)) == 0:
        # longitudes in another range of 360 degrees
        par["from"] = draw(st.sampled_from([0, 0, -360, -90]))
    if noise and draw(st.booleans()):
        par["noise"] = draw(st.sampled_from([0.01, 0.1, 0.3]))
        par["seed"] = draw(seeds)
    return par


def frame(lon0, lat0, az):
    """Unit vectors: up, along (azimuth az), across (to the right of along)."""
    lo, la, a = np.deg2rad([lon0, lat0, az])
    up = np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
    east = np.array([-np.sin(lo), np.cos(lo), 0.0])
    north = np.cross(up, east)
    along = np.cos(a) * north + np.sin(a) * east
    across = np.cos(a) * east * 1.0 - np.sin(a) * north
    return up, along, across


def make_swath(par, rows, cols):
    """Longitudes and latitudes of the swath at fractional rows x columns.

    rows, cols: sizes (tie points at 0, 1, ...); the swath's place is at the fractions ar, ac of its extent.
    """
    lon, lat = _make_swath(par, rows, cols)
    if "from" in par:
        lon = (lon - par["from"]) % 360 + par["from"]
    return lon, lat


def _make_swath(par, rows, cols):
    """The same, longitudes in [-180, 180]."""
    i = np.arange(rows, dtype=float)[:, None] - par["ar"] * (rows - 1)
    j = np.arange(cols, dtype=float)[None, :] - par["ac"] * (cols - 1)
    rng = np.random.default_rng(par.get("seed", 0))
    di = dj = 0.0
    if par.get("noise"):
        di = par["noise"] * rng.uniform(-1, 1, (rows, cols))
        dj = par["noise"] * rng.uniform(-1, 1, (rows, cols))
    v = (j + dj) * par["sc"]
    u = (i + di) * par["sr"] + par["bend"] * par["sr"] * ((j / max(cols - 1, 1)) ** 2) * 4
    u, v = np.broadcast_arrays(u, v)
    if par["kind"] == "plate":
        lat = np.clip(par["lat0"] + u + par["tilt"] * v, -90, 90)
        lon = wrap180(par["lon0"] + v - 0.3 * par["tilt"] * u)
        return np.array(lon), np.array(lat)
    up, along, across = frame(par["lon0"], par["lat0"], par["az"])
    ur, vr = np.deg2rad(u), np.deg2rad(v)
    vec = (np.cos(vr) * np.cos(ur))[..., None] * up + (np.cos(vr) * np.sin(ur))[..., None] * along \
        + np.sin(vr)[..., None] * across
    return to_lonlat(vec)


def classify(rec, lon, lat):
    """Label what is special about a swath; returns the number of labels."""
    lon, lat = np.asarray(lon), np.asarray(lat)
    names = []
    if (np.abs(lon) > 180).any():
        names.append("longitudes beyond 180")
        lon = wrap180(lon)
    if np.abs(lat).max() > 89:
        names.append("pole")
    elif lon.max() - lon.min() > 180:
        names.append("antimeridian")
    if (np.abs(lon) == 180).any():
        names.append("tie point exactly on the antimeridian")
    if lat.min() < 0 < lat.max():
        names.append("equator")
    if lon.min() < 0 < lon.max() and lon.max() - lon.min() < 180:
        names.append("greenwich")
    if np.abs(lat).min() < 53.13 < np.abs(lat).max():
        names.append("latitude branch")
    rec.label(*names)
    return len(names)


def layout(arr, kind):
    """The same values in another memory layout."""
    if kind == "F":
        return np.asfortranarray(arr)
    if kind == "strided":
        big = np.full((arr.shape[0] * 2, arr.shape[1] * 3), np.nan, dtype=arr.dtype)
        big[::2, ::3] = arr
        return big[::2, ::3]
    if kind == "reversed":
        return np.ascontiguousarray(arr[::-1, ::-1])[::-1, ::-1]
    if kind == "window":
        big = np.full((arr.shape[0] + 4, arr.shape[1] + 6), np.nan, dtype=arr.dtype)
        big[2:-2, 3:-3] = arr
        return big[2:-2, 3:-3]
    if kind == "readonly":
        arr = arr.copy()
        arr.flags.writeable = False
        return arr
    return arr


layouts = st.sampled_from(["C", "F", "strided", "reversed", "readonly"])


@st.composite
def positions(draw, n, kinds=("unit", "even", "random")):
    """n strictly increasing tie positions."""
    kind = draw(st.sampled_from(kinds))
    start = draw(st.sampled_from([0.0, 2.0, -3.0, 0.5]))
    if kind == "unit":
        return [start + i for i in range(n)]
    if kind == "even":
        step = draw(st.sampled_from([2.0, 5.0, 0.2, 10.0]))
        return [start + i * step for i in range(n)]
    gaps = draw(st.lists(st.integers(1, 12), min_size=n - 1, max_size=n - 1))
    pos = [start]
    for gap in gaps:
        pos.append(pos[-1] + gap / 2.0)
    return pos


def chunks_of(draw, total):
    """A random split of total into chunks."""
    out = []
    left = total
    for _ in range(draw(st.integers(0, 5))):
        if left <= 1:
            break
        size = draw(st.integers(1, left - 1))
        out.append(size)
        left -= size
    if left:
        out.append(left)
    return out
