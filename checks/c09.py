"""Each scan is interpolated from its own tie points only."""
import numpy as np
from hypothesis import strategies as st

from checks import pipelines
from lib import gen
from lib.core import Sub, as_np, call, check_close, check_places, check_shape, require

PIPES = ("metop20kmto1km", "modis5kmto1km", "modis1kmto500m", "modis1kmto250m") + pipelines.CVIIRS + pipelines.SIMPLE


@st.composite
def cases(draw, pipes, shared=False):
    case = draw(pipelines.with_swath(pipes))
    scans = draw(st.integers(1 + shared, 3))
    case["cfg"] = dict(case["cfg"], scans=scans)
    case["order"] = draw(st.lists(st.integers(0, scans - 1), min_size=draw(st.sampled_from([1, 2, 2, 3])), max_size=5))
    case["jump"] = draw(st.sampled_from([0, 0, 30, 120]))     # degrees between consecutive scans: unrelated scans
    if shared or scans > 1 and draw(st.booleans()):
        # scans that have some rows in common
        case["copies"] = [{"to": draw(st.integers(1, scans - 1)), "back": draw(st.sampled_from([1, 1, 2])),
                           "rows": draw(st.sampled_from(["last to first", "last to first", "first", "last", "all",
                                                         "one"])),
                           "of": draw(st.sampled_from(["satz", "lon lat", "lon", "lat", "lon lat satz"])),
                           "row": draw(st.integers(0, 9))} for _ in range(draw(st.integers(1, 2)))]
        if any(copy["of"] != "satz" for copy in case["copies"]):
            case["jump"] = 0     # a scan whose own rows lie on other sides of the Earth is none
        if shared or draw(st.booleans()):
            case["order"] = list(range(scans))
    return case


def copy_rows(case, per, arrays):
    """Give scans rows of the scans before."""
    for copy in case.get("copies", ()):
        src, dst = max(copy["to"] - copy["back"], 0) * per, copy["to"] * per
        take, put = {"last to first": (slice(per - 1, per), slice(0, 1)), "first": (slice(0, 1), slice(0, 1)),
                     "last": (slice(per - 1, per), slice(per - 1, per)), "all": (slice(0, per), slice(0, per)),
                     "one": (slice(copy["row"] % per, copy["row"] % per + 1),) * 2}[copy["rows"]]
        for name, arr in arrays.items():
            if arr is not None and name in copy["of"].split():
                arr[dst + put.start:dst + put.stop] = arr[src + take.start:src + take.stop]


def check(case, rec):
    base = pipelines.build(case)
    per, fine = base.scan
    lon, lat = gen.make_swath(case["swath"], base.rows, base.cols)
    scans = case["cfg"]["scans"]
    offsets = np.repeat(np.arange(scans) * case["jump"], per)[:, None]
    lon = (lon + offsets + 180) % 360 - 180 if case["jump"] else lon
    dtype = np.dtype(case["dtype"])
    lon, lat = lon.astype(dtype), lat.astype(dtype)
    order = case["order"]
    single = pipelines.build(dict(case, cfg=dict(case["cfg"], scans=1)))
    many = pipelines.build(dict(case, cfg=dict(case["cfg"], scans=len(order))))
    satz = getattr(base, "satz", None)
    satz = None if satz is None else satz.copy()
    copy_rows(case, per, {"lon": lon, "lat": lat, "satz": satz})

    def rows_of(arr, which):
        return np.concatenate([arr[k * per:(k + 1) * per] for k in which])

    def run(pipe, which):
        args = [rows_of(lon, which), rows_of(lat, which)]
        if satz is not None:
            args.append(rows_of(satz, which))
        res = pipe.run(*args)
        require(len(res) == 2, "%s returned %d arrays" % (case["pipe"], len(res)))
        return [as_np(r) for r in res]

    alone = {k: run(single, [k]) for k in sorted(set(order))}
    for k, pair in alone.items():
        check_shape(pair[0], (fine, pair[0].shape[1]), "scan %d" % k)
    stacked = run(many, order)
    elon, elat = (np.concatenate([alone[k][n] for k in order]) for n in (0, 1))
    if case.get("copies"):
        # moved rows need not make a scan that can be seen from anywhere: such pixels have no place
        lost = np.isnan(elon) & np.isnan(elat) & np.isnan(stacked[0]) & np.isnan(stacked[1])
        if lost.any():
            rec.label("pixels without a place")
            elon, elat = np.where(lost, 0, elon), np.where(lost, 0, elat)
            stacked = [np.where(lost, 0, arr) for arr in stacked]
    worst = check_places(stacked[0], stacked[1], elon, elat, 1e-3, "%s of scans %s, against the single scans"
                         % (case["pipe"], order))
    rec.notes["metres"] = worst
    rec.label(case["pipe"], case["dtype"], "scans=%s" % (len(order) if len(order) < 8 else "many"), "jump" if case["jump"] else "continuous")
    if len(set(order)) < len(order):
        rec.label("repeated scan")
    if order != sorted(order):
        rec.label("reordered")
    for copy in case.get("copies", ()):
        rec.label("%s row(s) in common" % copy["rows"])
    rec.mark(len(order) > 1)


PIXELS = 12000000


@st.composite
def many_cases(draw, pipes):
    """Granules as long as real ones, and longer."""
    case = draw(pipelines.with_swath(pipes))
    scans = draw(st.integers(1, 3))
    case["cfg"] = dict(case["cfg"], scans=scans)
    if case["pipe"] in pipelines.SIMPLE:
        case["cfg"]["width"] = draw(st.sampled_from([2, 3, 40]))
    case["jump"] = draw(st.sampled_from([0, 30]))
    case["number"] = draw(st.one_of(st.sampled_from([203, 128, 256, 300]), st.integers(4, 300)))
    case["oseed"] = draw(gen.seeds)
    return case


def check_many(case, rec):
    pipe = pipelines.build(case)
    width = 1354 * 4 if pipe.cols in (270, 271, 1354) else pipe.cols * 4
    number = max(4, min(case["number"], PIXELS // (pipe.scan[1] * width)))
    order = np.random.default_rng(case["oseed"]).integers(0, case["cfg"]["scans"], number)
    rec.label("scans>=%d" % max(k for k in (4, 32, 128, 256) if k <= number))
    check(dict(case, order=[int(k) for k in order]), rec)


@st.composite
def vii_data_cases(draw):
    scans = draw(st.integers(1, 4))
    return {"factor": draw(st.sampled_from([1, 2, 3, 8])), "per_scan": draw(st.integers(2, 5)), "scans": scans,
            "cols": draw(st.integers(2, 6)), "seed": draw(gen.seeds), "n": draw(st.integers(1, 3)),
            "order": draw(st.lists(st.integers(0, scans - 1), min_size=1, max_size=6))}


def check_vii_data(case, rec):
    import xarray as xr
    from geotiepoints.viiinterpolator import tie_points_interpolation
    rng = np.random.default_rng(case["seed"])
    per = case["per_scan"]
    arrays = [rng.normal(size=(case["scans"] * per, case["cols"])) for _ in range(case["n"])]

    def run(which):
        args = [xr.DataArray(np.concatenate([a[k * per:(k + 1) * per] for k in which]), dims=("y", "x"))
                for a in arrays]
        return [as_np(r) for r in call(tie_points_interpolation, args, per, case["factor"])]

    stacked = run(case["order"])
    alone = {k: run([k]) for k in set(case["order"])}
    require(len(stacked) == case["n"], "%d results for %d arrays" % (len(stacked), case["n"]))
    for n in range(case["n"]):
        expected = np.concatenate([alone[k][n] for k in case["order"]])
        check_close(stacked[n], expected, 1e-12 * (1 + np.abs(arrays[n]).max()), "array %d" % n)
    rec.label("scans=%d" % len(case["order"]), "factor=%d" % case["factor"])
    rec.mark(len(case["order"]) > 1)


RULE = "more than one scan"
SUBCHECKS = [
    Sub("modis", cases(pipelines.full(PIPES, zeniths=pipelines.CALM)), check, quick=1040, thorough=8000, rule=RULE),
    Sub("shared", cases(pipelines.full(pipelines.CVIIRS * 2 + pipelines.SIMPLE + pipelines.LEGACY,
                                       zeniths=["jitter", "bumps", "near", "scan"]), shared=True),
        check, quick=760, thorough=8000, rule=RULE),
    Sub("many", many_cases(pipelines.full(pipelines.LEGACY + pipelines.CVIIRS + pipelines.SIMPLE * 4,
                                          zeniths=["jitter", "bumps", "scan"])),
        check_many, quick=90, thorough=900, rule=RULE),
    Sub("vii_geo", cases(pipelines.small(pipes=("vii",))), check, quick=760, thorough=8000, rule=RULE),
    Sub("vii_data", vii_data_cases(), check_vii_data, quick=1240, thorough=15000, rule=RULE),
]
SETTINGS = {"technique": "metamorphic property-based testing (Hypothesis): stacked scans against single scans"}
