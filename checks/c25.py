"""Missing tie points stay missing, and only locally."""
import numpy as np
from hypothesis import strategies as st

from checks import pipelines
from lib import gen, models
from lib.core import Invalid, Sub, Violation, as_np, call, check_shape, require

TINY = 1e-6


@st.composite
def holes(draw):
    """Where tie points are missing (fractions of the size), and of which array."""
    out = []
    for _ in range(draw(st.integers(1, 4))):
        pos = [draw(st.one_of(st.sampled_from([0, 1000]), st.integers(0, 1000))) for _ in range(2)]
        size = [draw(st.sampled_from([1, 1, 1, 2, 5])), draw(st.sampled_from([1, 1, 1, 2, 9]))]
        out.append({"at": pos, "size": size, "of": draw(st.sampled_from(["lon", "lat", "both", "both", "satz"]))})
    return out


def masks(case, rows, cols):
    """Boolean arrays of the missing values of lon, lat and satz."""
    out = {name: np.zeros((rows, cols), bool) for name in ("lon", "lat", "satz")}
    for hole in case["holes"]:
        r, c = (hole["at"][0] * (rows - 1)) // 1000, (hole["at"][1] * (cols - 1)) // 1000
        part = slice(r, r + hole["size"][0]), slice(c, c + hole["size"][1])
        for name in ("lon", "lat") if hole["of"] == "both" else (hole["of"],):
            out[name][part] = True
    return out


def compare(clean, holed, must, may, what, rec):
    """clean, holed: lists of arrays of the same pixels.  Missing: any of the arrays is NaN."""
    for a, b in zip(clean, holed):
        check_shape(b, a.shape, what)
        require(not np.isnan(a).any(), what + ": NaN without missing tie points")
    missing = np.any([np.isnan(b) for b in holed], axis=0)
    plausible = must & ~missing
    if plausible.any():
        idx = tuple(int(i) for i in np.argwhere(plausible)[0])
        raise Violation("%s: %d pixels that need a missing tie point have values, e.g. %s at %s"
                        % (what, plausible.sum(), [float(b[idx]) for b in holed], idx))
    for a, b in zip(clean, holed):
        tol = 64 * float(np.finfo(a.dtype).eps) * (1 + np.abs(a))
        # what is left of the place of a missing pixel (the latitude, if it needs no longitudes) is right, too
        wrong = must & ~np.isnan(b) & ~(np.abs(a - b) <= tol)
        if wrong.any():
            idx = tuple(int(i) for i in np.argwhere(wrong)[0])
            raise Violation("%s: %d pixels that need a missing tie point have another value, e.g. at %s %r instead of "
                            "%r or NaN" % (what, wrong.sum(), idx, float(b[idx]), float(a[idx])))
        changed = ~may & ~(np.abs(a - b) <= tol)
        if changed.any():
            idx = tuple(int(i) for i in np.argwhere(changed)[0])
            raise Violation("%s: %d pixels away from missing tie points changed, e.g. at %s from %r to %r"
                            % (what, changed.sum(), idx, float(a[idx]), float(b[idx])))
    rec.label("some missing" if must.any() else "none needed", "all missing" if must.all() else "some left")
    rec.mark(bool(must.any() and (~may).any()))


def spread(hole, i, j, si, sj):
    """must and may masks of the fine pixels for missing tie points.

    i, j: the cell of each fine row / column;  si, sj: the position in the cell (weights 1 - s and s).
    A pixel on a cell border may use the cells on both sides.
    """
    must = np.zeros((len(i), len(j)), bool)
    may = np.zeros_like(must)
    rows, cols = hole.shape
    for di in (0, 1):
        wi = np.abs(si if di else 1 - si)
        for dj in (0, 1):
            wj = np.abs(sj if dj else 1 - sj)
            here = hole[np.ix_(i + di, j + dj)]
            must |= here & (wi > TINY)[:, None] & (wj > TINY)[None, :]
    # closed cells that touch it: the neighbours of the cells of border pixels, too
    for di in (-1, 0, 1, 2):
        oi = i + di
        ok_i = (oi >= 0) & (oi < rows) & ((di in (0, 1)) | ((di == -1) & (si < TINY)) | ((di == 2) & (si > 1 - TINY)))
        for dj in (-1, 0, 1, 2):
            oj = j + dj
            ok_j = (oj >= 0) & (oj < cols) & ((dj in (0, 1)) | ((dj == -1) & (sj < TINY)) | ((dj == 2) & (sj > 1 - TINY)))
            here = hole[np.ix_(np.clip(oi, 0, rows - 1), np.clip(oj, 0, cols - 1))]
            may |= here & ok_i[:, None] & ok_j[None, :]
    return must, may


# ---------------------------------------------------------------- MODIS


@st.composite
def modis_cases(draw):
    case = draw(pipelines.with_swath(pipelines.full(pipelines.SIMPLE * 2 + pipelines.CVIIRS, max_scans=3,
                                                    zeniths=["scan", "constant", "bumps", "jitter"])))
    case["holes"] = draw(holes())
    if case["pipe"] in pipelines.SIMPLE:
        case["cfg"]["width"] = draw(st.sampled_from([2, 3, 7, 40, 40, 135]))
    return case


def check_modis(case, rec):
    name = case["pipe"]
    pipe = pipelines.build(case)
    lon, lat = gen.make_swath(case["swath"], pipe.rows, pipe.cols)
    dtype = np.dtype(case["dtype"])
    lon, lat = lon.astype(dtype), lat.astype(dtype)
    simple = name in pipelines.SIMPLE
    satz = None if simple else pipe.satz.astype(dtype)
    miss = masks(case, pipe.rows, pipe.cols)
    func = pipelines.simple_func(name) if simple else pipelines.cviirs_func(name)

    def run(values):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return [as_np(r) for r in call(func, *[v.copy() for v in values])]

    values = [lon, lat] + ([] if simple else [satz])
    clean = run(values)
    holed = []
    for arr, key in zip(values, ("lon", "lat", "satz")):
        holed.append(np.where(miss[key], dtype.type(np.nan), arr))
    holed = run(holed)
    if simple:
        fine = 500 if "500m" in name else 250
        f, per = 1000 // fine, 10
        y = (np.arange(10 * f) + 0.5) / f - 0.5
        x = np.arange(pipe.cols * f) / f
        i, j = np.clip(np.floor(y), 0, 8).astype(int), np.clip(np.floor(x), 0, pipe.cols - 2).astype(int)
        t, s = y - i, x - j
    else:
        coarse, fine = pipelines.cviirs_config(name)
        i, t, j, s, _n, per = models.modis_cells(coarse, fine, pipe.cols)
    must, may = [], []
    for scan in range(pipe.rows // per):
        part = slice(scan * per, (scan + 1) * per)
        a, b = spread((miss["lon"] | miss["lat"])[part], i, j, t, s)
        if not simple:
            hole = miss["satz"][part]
            # the corrections of a cell come from its upper corners; they vanish on its own corners
            upper = hole[np.ix_(i, j)] | hole[np.ix_(i, j + 1)]
            a |= upper & ((np.abs(s * (1 - s)) > TINY)[None, :] | np.zeros(len(t), bool)[:, None])
            b |= spread(hole, i, j, t, s)[1]
        must.append(a)
        may.append(b)
    compare(clean, holed, np.concatenate(must), np.concatenate(may), name, rec)
    rec.label(name, case["dtype"], *[h["of"] for h in case["holes"]])


# ---------------------------------------------------------------- VII


@st.composite
def vii_cases(draw):
    per = draw(st.integers(2, 4))
    return {"per_scan": per, "rows": per * draw(st.integers(1, 3)), "cols": draw(st.integers(2, 7)),
            "factor": draw(st.sampled_from([1, 2, 3, 8])), "geo": draw(st.booleans()), "holes": draw(holes()),
            "swath": draw(gen.swaths(step=draw(st.sampled_from([(1.0, 1.0), (0.1, 0.2), (5.0, 8.0)])))),
            "lazy": draw(st.booleans())}


def check_vii(case, rec):
    import dask
    import dask.array as da
    import xarray as xr
    from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation
    per, factor, rows, cols = case["per_scan"], case["factor"], case["rows"], case["cols"]
    lon, lat = gen.make_swath(case["swath"], rows, cols)
    miss = masks(case, rows, cols)
    hlon, hlat = np.where(miss["lon"], np.nan, lon), np.where(miss["lat"], np.nan, lat)

    def mode(lo, la):
        with np.errstate(all="ignore"):
            return bool(np.nanmax(np.abs(la)) > 60 or np.nanmax(lo) - np.nanmin(lo) > 180)

    if case["geo"] and (np.isnan(hlon).all() or np.isnan(hlat).all() or mode(lon, lat) != mode(hlon, hlat)):
        raise Invalid      # the mode is that of the tie points that are left

    def run(*arrays):
        args = [xr.DataArray(da.from_array(a.copy(), chunks=(per, 3)) if case["lazy"] else a.copy(), dims=("y", "x"))
                for a in arrays]
        with dask.config.set(scheduler="synchronous"):
            if case["geo"]:
                return [as_np(r) for r in call(tie_points_geo_interpolation, args[0], args[1], per, factor)]
            return [as_np(r) for r in call(tie_points_interpolation, args, per, factor)]

    clean, holed = run(lon, lat), run(hlon, hlat)
    t = np.arange((per - 1) * factor) / factor
    s = np.arange((cols - 1) * factor) / factor
    i, j = np.floor(t).astype(int), np.floor(s).astype(int)

    def regions(hole):
        # the granule's tie points are one grid (as documented): its cells include those between two scans, which
        # touch the first pixel row of a scan
        every = np.concatenate([t + k * per for k in range(rows // per)])
        row = np.floor(every).astype(int)
        return spread(hole, row, j, every - row, s - j)

    if case["geo"]:
        must, may = regions(miss["lon"] | miss["lat"])
        compare(clean, holed, must, may, "VII geolocation", rec)
    else:
        for num, name in enumerate(("lon", "lat")):
            must, may = regions(miss[name])
            compare(clean[num:num + 1], holed[num:num + 1], must, may, "VII data", rec)
    rec.label("factor=%d" % factor, "lazy" if case["lazy"] else "in memory",
              ("cartesian" if mode(lon, lat) else "lon/lat") if case["geo"] else "data")


# ---------------------------------------------------------------- grids


@st.composite
def grid_cases(draw):
    rows, cols = draw(gen.positions(draw(st.integers(2, 7)))), draw(gen.positions(draw(st.integers(2, 7))))
    case = {"rows": rows, "cols": cols, "geo": draw(st.booleans()), "holes": draw(holes()), "dtype": draw(gen.dtypes),
            "swath": draw(gen.swaths(step=(1.0, 1.0))), "chunks": draw(st.sampled_from([None, None, 2, 5])),
            "outside": draw(st.booleans())}
    for key, tie in (("frows", rows), ("fcols", cols)):
        fracs = draw(st.lists(st.integers(0, 1000), min_size=1, max_size=8))
        fine = [tie[0] + (tie[-1] - tie[0]) * k / 1000.0 for k in fracs]
        fine += draw(st.lists(st.sampled_from(tie), max_size=3))
        if case["outside"]:
            fine += [tie[0] - 0.5, tie[-1] + 0.75]
        case[key] = sorted(set(fine))
    return case


def check_grid(case, rec):
    from geotiepoints.geointerpolator import GeoGridInterpolator
    from geotiepoints.interpolator import MultipleGridInterpolator
    rows, cols = np.array(case["rows"]), np.array(case["cols"])
    lon, lat = gen.make_swath(case["swath"], len(rows), len(cols))
    dtype = np.dtype(case["dtype"])
    lon, lat = lon.astype(dtype), lat.astype(dtype)
    miss = masks(case, len(rows), len(cols))
    fine = np.array(case["frows"]), np.array(case["fcols"])
    klass = GeoGridInterpolator if case["geo"] else MultipleGridInterpolator
    kwargs = {"method": "linear"}
    if case["outside"]:
        kwargs.update(bounds_error=False, fill_value=None)

    def run(*arrays):
        interp = call(klass, (rows, cols), *[a.copy() for a in arrays], **kwargs)
        more = {"chunks": case["chunks"]} if case["chunks"] else {}
        return [as_np(r) for r in call(interp.interpolate, fine, **more)]

    clean = run(lon, lat)
    holed = run(*[np.where(miss[k], dtype.type(np.nan), a) for k, a in (("lon", lon), ("lat", lat))])

    def cells(tie, pos):
        k = np.clip(np.searchsorted(tie, pos, side="right") - 1, 0, len(tie) - 2)
        return k, (pos - tie[k]) / (tie[k + 1] - tie[k])

    (i, t), (j, s) = cells(rows, fine[0]), cells(cols, fine[1])
    if case["geo"]:
        compare(clean, holed, *spread(miss["lon"] | miss["lat"], i, j, t, s), "geographic grid", rec)
    else:
        for num, name in enumerate(("lon", "lat")):
            compare(clean[num:num + 1], holed[num:num + 1], *spread(miss[name], i, j, t, s), "grid", rec)
    rec.label("geographic" if case["geo"] else "plain", case["dtype"], "lazy" if case["chunks"] else "in memory",
              "with extrapolation" if case["outside"] else "inside")


RULE = "some pixels need a missing tie point, and some are away from all of them"
SUBCHECKS = [
    Sub("modis", modis_cases(), check_modis, quick=640, thorough=10000, rule=RULE),
    Sub("vii", vii_cases(), check_vii, quick=900, thorough=15000, rule=RULE),
    Sub("grid", grid_cases(), check_grid, quick=1800, thorough=40000, rule=RULE),
]
SETTINGS = {"technique": "metamorphic property-based testing (Hypothesis): with and without missing tie points"}
