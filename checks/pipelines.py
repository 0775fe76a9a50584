"""Every way the package interpolates geolocation, behind one interface.

A pipeline case is {"pipe": name, "cfg": {...}}; build(case) gives an object with
  rows, cols     size of the tie-point arrays
  run(lon, lat)  -> (lon, lat) arrays of the fine grid
  ties           list of (fine row, fine col, tie row, tie col) index arrays of coinciding pixels, or None
  scan           (tie rows, fine rows) of a scan, or None if rows are not independent
"""
import numpy as np
from hypothesis import strategies as st

from lib import gen, models
from lib.core import call, require

LEGACY = ("metop20kmto1km", "modis5kmto1km", "modis1kmto500m", "modis1kmto250m")
CVIIRS = ("modis_1km_to_500m", "modis_1km_to_250m", "modis_5km_to_1km", "modis_5km_to_500m", "modis_5km_to_250m")
SIMPLE = ("simple_1km_to_500m", "simple_1km_to_250m")


def cviirs_config(name):
    coarse = 1000 if "1km_to" in name else 5000
    fine = {"1km": 1000, "500m": 500, "250m": 250}[name.rsplit("_", 1)[1]]
    return coarse, fine


def cviirs_func(name):
    from geotiepoints import modisinterpolator
    return getattr(modisinterpolator, name)


def simple_func(name):
    from geotiepoints import simple_modis_interpolator
    return getattr(simple_modis_interpolator, name.replace("simple", "modis"))


def legacy_func(name):
    import geotiepoints
    return getattr(geotiepoints, name)


def zenith(rows, cols, kind, seed, km=1.0):
    """Sensor zenith angles (degrees, 0..80) of a swath of the given size.

    scan: as seen by the instrument (absolute value, decreasing then increasing); signed fields do not occur.
    """
    rng = np.random.default_rng(seed)
    j = np.arange(cols) - (cols - 1) / 2.0
    if kind == "scan":
        alpha = j * (2 * 0.960 / (cols - 1))           # scan angle, +-55 degrees
        z = np.rad2deg(np.arcsin(np.clip((6370.997 + 709.0) / 6370.997 * np.sin(np.abs(alpha)), 0, 1)))
        z = np.tile(z, (rows, 1))
    elif kind == "jitter":
        z = zenith(rows, cols, "scan", 0) + rng.uniform(0, 0.02, (rows, cols))
    elif kind == "ramp":
        z = np.tile(np.linspace(0, 79, cols), (rows, 1))
    elif kind == "zero":
        z = np.zeros((rows, cols))
    elif kind == "constant":
        z = np.full((rows, cols), 5.0 + (seed % 700) / 10.0)
    elif kind == "mixed":
        z = zenith(rows, cols, "scan", 0)
        for _ in range(4):
            r, c, w = rng.integers(0, rows), rng.integers(0, cols - 5), rng.integers(2, 40)
            z[r:r + 3, c:c + w] = rng.choice([0.0, 10.0, 65.0, z[r, c]])
    elif kind == "near":
        # equal up to rounding, as computed angles on either side of the track are
        z = zenith(rows, cols, "scan", 0)
        z = np.abs(z + rng.choice([0.0, 1e-13, 1e-10, 4e-6, 1e-4], (rows, cols)) * rng.choice([-1, 1], (rows, cols)))
    elif kind == "random":
        z = rng.uniform(0, 80, (rows, cols))
    else:  # smooth bumps
        z = 35 + 30 * np.sin(j / cols * rng.uniform(2, 9) + rng.uniform(0, 6))[None] + rng.uniform(0, 0.5, (rows, 1))
    return np.clip(z, 0, 80)


CALM = ["scan", "scan", "jitter", "ramp", "zero", "constant", "bumps", "near"]
ZENITHS = ["scan", "scan", "jitter", "ramp", "zero", "constant", "mixed", "bumps", "random", "near"]


class Pipe:
    def __init__(self, rows, cols, run, ties=None, scan=None, step=(0.05, 0.05), fine_shape=None):
        self.rows, self.cols, self.run, self.ties, self.scan = rows, cols, run, ties, scan
        self.fine_shape = fine_shape


# ---------------------------------------------------------------- drawing

@st.composite
def small(draw, ties=True, pipes=("geo", "geogrid", "geospline", "vii"), lonlat_vii=False):
    """Configurations of the pipelines that work for any grid size."""
    pipe = draw(st.sampled_from(list(pipes)))
    cfg = {}
    if pipe == "vii":
        cfg = {"factor": draw(st.sampled_from([1, 2, 3, 8])), "per_scan": draw(st.integers(2, 4)),
               "scans": draw(st.integers(1, 3)), "cols": draw(st.integers(2, 6))}
        if lonlat_vii:
            cfg["lat_threshold"] = draw(st.sampled_from([-1.0, 60.0, 60.0, 80.0]))
        return {"pipe": pipe, "cfg": cfg}
    kx = ky = 1
    if pipe != "geogrid":
        kx, ky = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    nr = draw(st.integers(kx + 1, kx + 4))
    nc = draw(st.integers(ky + 1, ky + 4))
    cfg["rows"] = draw(gen.positions(max(nr, 2)))
    cfg["cols"] = draw(gen.positions(max(nc, 2)))
    cfg["kx"], cfg["ky"] = kx, ky
    # fine positions: the ties and some in between
    for axis in ("rows", "cols"):
        tie = cfg[axis]
        extra = draw(st.lists(st.integers(0, 1000), max_size=6))
        pts = set(tie) | {tie[0] + (tie[-1] - tie[0]) * e / 1000.0 for e in extra}
        cfg["f" + axis] = sorted(pts)
    if pipe == "geo":
        cfg["same_rows"] = draw(st.booleans()) and draw(st.booleans())
        if cfg["same_rows"]:
            cfg["frows"] = cfg["rows"]
        cfg["fill"] = draw(st.sampled_from([None, None, ["y", "x"], ["x"], ["x", "y"]]))
        if cfg["fill"]:
            # borders to fill
            cfg["fcols"] = sorted(set(cfg["fcols"]) | {cfg["cols"][0] - 1.5, cfg["cols"][-1] + 0.5})
            if "y" in cfg["fill"]:
                cfg["frows"] = sorted(set(cfg["frows"]) | {cfg["rows"][0] - 0.5, cfg["rows"][-1] + 1.5})
    if pipe == "geogrid":
        cfg["method"] = "linear"
    return {"pipe": pipe, "cfg": cfg}


@st.composite
def full(draw, pipes=LEGACY + CVIIRS + SIMPLE, max_scans=2, zeniths=None):
    """Configurations of the pipelines for full instrument scans."""
    pipe = draw(st.sampled_from(list(pipes)))
    cfg = {"scans": draw(st.integers(1, max_scans))}
    if pipe in CVIIRS:
        cfg["zen"] = draw(st.sampled_from(zeniths or ZENITHS))
        cfg["zseed"] = draw(gen.seeds)
        if "5km_to" in pipe:
            cfg["width"] = draw(st.sampled_from([271, 270]))
    if pipe in SIMPLE:
        cfg["width"] = draw(st.sampled_from([2, 3, 7, 40, 1354]))
    if pipe == "metop20kmto1km":
        cfg["scans"] = draw(st.integers(1, 6) | st.integers(1, 60))
    return {"pipe": pipe, "cfg": cfg}


def index_of(positions, fine):
    return [list(fine).index(p) for p in positions]


def weights(cfg):
    """How much rounding of the tie points can grow in the pixels (1 if it cannot)."""
    if "frows" not in cfg:
        return 1.0
    return models.spline_weights(cfg["rows"], cfg["cols"], cfg["frows"], cfg["fcols"], cfg["kx"], cfg["ky"],
                                 dims=cfg.get("fill") or ())


def build(case):
    pipe, cfg = case["pipe"], case["cfg"]
    if pipe == "vii":
        import xarray as xr
        from geotiepoints.viiinterpolator import tie_points_geo_interpolation
        n, f = cfg["per_scan"], cfg["factor"]
        rows, cols = n * cfg["scans"], cfg["cols"]
        thr = cfg.get("lat_threshold", -1.0)   # -1: always Cartesian

        def run(lon, lat):
            args = [xr.DataArray(a, dims=("y", "x")) for a in (lon, lat)]
            res = call(tie_points_geo_interpolation, args[0], args[1], n, f, lat_threshold_use_cartesian=thr)
            require(len(res) == 2, "VII interpolation returned %d arrays" % len(res))
            return np.asarray(res[0]), np.asarray(res[1])

        tr = np.array([s * n + r for s in range(cfg["scans"]) for r in range(n - 1)])
        fr = np.array([s * (n - 1) * f + r * f for s in range(cfg["scans"]) for r in range(n - 1)])
        tc = np.arange(cols - 1)
        return Pipe(rows, cols, run, ties=np.ix_(fr, tc * f) + np.ix_(tr, tc), scan=(n, (n - 1) * f))
    if pipe in ("geo", "geogrid", "geospline"):
        from geotiepoints import geointerpolator as gi
        rows, cols = np.array(cfg["rows"]), np.array(cfg["cols"])
        frows, fcols = np.array(cfg["frows"]), np.array(cfg["fcols"])

        def run(lon, lat):
            if pipe == "geo":
                interp = call(gi.GeoInterpolator, (lon, lat), (rows, cols), (frows, fcols), cfg["kx"], cfg["ky"])
                if cfg["fill"]:
                    call(interp.fill_borders, *cfg["fill"])
                res = call(interp.interpolate)
            elif pipe == "geogrid":
                interp = call(gi.GeoGridInterpolator, (rows, cols), lon, lat, method=cfg["method"])
                res = call(interp.interpolate, (frows, fcols))
            else:
                interp = call(gi.GeoSplineInterpolator, (rows, cols), lon, lat, kx=cfg["kx"], ky=cfg["ky"])
                res = call(interp.interpolate, (frows, fcols))
            require(len(res) == 2, "%s returned %d arrays" % (pipe, len(res)))
            return res

        ties = np.ix_(index_of(cfg["rows"], frows), index_of(cfg["cols"], fcols)) \
            + np.ix_(range(len(rows)), range(len(cols)))
        return Pipe(len(rows), len(cols), run, ties=ties)
    if pipe in LEGACY:
        func = legacy_func(pipe)
        if pipe == "metop20kmto1km":
            rows, cols = cfg["scans"], 105
            tie_cols = [0] + list(range(4, 2048, 20)) + [2047]
            ties = np.ix_(range(rows), tie_cols) + np.ix_(range(rows), range(cols))
            scan = (1, 1)
        elif pipe == "modis5kmto1km":
            rows, cols = 2 * cfg["scans"], 271
            ties = np.ix_(np.arange(rows) * 5 + 2, np.arange(cols) * 5 + 2) + np.ix_(range(rows), range(cols))
            scan = (2, 10)
        else:
            rows, cols = 10 * cfg["scans"], 1354
            ties = None
            scan = (10, 20 if "500m" in pipe else 40)
        return Pipe(rows, cols, lambda lon, lat: call(func, lon, lat), ties=ties, scan=scan)
    if pipe in SIMPLE:
        func = simple_func(pipe)
        scan = (10, 20 if "500m" in pipe else 40)
        return Pipe(10 * cfg["scans"], cfg["width"], lambda lon, lat: call(func, lon, lat), scan=scan)
    func = cviirs_func(pipe)
    coarse, fine = cviirs_config(pipe)
    per = 10 if coarse == 1000 else 2
    rows, cols = per * cfg["scans"], 1354 if coarse == 1000 else cfg["width"]
    satz = zenith(rows, cols, cfg["zen"], cfg["zseed"])
    ties = None
    if pipe == "modis_5km_to_1km":
        ties = np.ix_(np.arange(rows) * 5 + 2, np.arange(cols) * 5 + 2) + np.ix_(range(rows), range(cols))

    def run(lon, lat, satz=satz):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return call(func, lon, lat, satz.astype(lon.dtype))

    pipe_obj = Pipe(rows, cols, run, ties=ties, scan=(per, per * coarse // fine))
    pipe_obj.satz = satz
    return pipe_obj


def swath_for(case):
    """A strategy for swaths with row and column steps that suit the pipeline."""
    pipe = case["pipe"]
    if pipe in LEGACY + CVIIRS + SIMPLE:
        return {"metop20kmto1km": (0.01, 0.2), "modis5kmto1km": (0.045, 0.06)}.get(
            pipe, (0.045, 0.06) if "5km_to" in pipe else (0.009, 0.012))
    return (1.0, 1.0)


@st.composite
def with_swath(draw, pipes):
    case = draw(pipes)
    step = swath_for(case)
    if case["pipe"] not in LEGACY + CVIIRS + SIMPLE:
        step = draw(st.sampled_from([(1.0, 1.0), (0.1, 0.2), (5.0, 5.0)]))
    # the VII interpolation may keep the range of longitudes it was given
    case["swath"] = draw(gen.swaths(step=step, conv=case["pipe"] != "vii"))
    case["dtype"] = draw(gen.dtypes)
    return case
