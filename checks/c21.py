"""Using several processes does not change the result."""
import gc
import multiprocessing
import time

import numpy as np
from hypothesis import strategies as st

from checks import pipelines
from lib import gen
from lib.core import Sub, as_np, call, check_places, check_shape, must_raise, require


@st.composite
def split_cases(draw):
    scan = draw(st.one_of(st.sampled_from([1, 2, 10, 40]), st.integers(1, 60)))
    if draw(st.booleans()):
        lines = scan * draw(st.one_of(st.integers(0, 12), st.integers(0, 400)))
    else:
        lines = draw(st.one_of(st.integers(0, 60), st.integers(0, 5000)))
    return {"lines": lines, "scan": scan, "cpus": draw(st.one_of(st.integers(1, 8), st.integers(1, 300)))}


def check_splits(case, rec):
    from geotiepoints import get_scene_splits
    lines, scan, cpus = case["lines"], case["scan"], case["cpus"]
    splits = [int(s) for s in call(get_scene_splits, lines, scan, cpus)]
    what = "splits %s of %d lines, %d per scan, %d processes" % (splits[:20], lines, scan, cpus)
    require(all(s % scan == 0 for s in splits), what + " are not on scan boundaries")
    require(all(a < b for a, b in zip(splits, splits[1:])), what + " are not increasing")
    require(all(0 < s < lines for s in splits), what + " are not inside of the swath")
    parts = np.vsplit(np.zeros((lines, 1)), splits)
    require(lines == 0 or all(len(p) for p in parts), what + " leave an empty part")
    rec.label("parts: %s" % ("1" if len(parts) == 1 else "2-8" if len(parts) < 9 else "more"),
              "whole scans" if lines % scan == 0 else "partial scan",
              "fewer scans than processes" if lines // scan < cpus else "enough scans")
    rec.mark(bool(splits))


class Delayed(np.ndarray):
    """An array whose parts take a given time to arrive in another process (the schedule of the processes)."""

    delays = {}

    def __array_finalize__(self, obj):
        self.delays = getattr(obj, "delays", {})

    def __reduce__(self):
        arr = np.array(self, subok=False)
        first = arr.flat[0] if arr.size else None
        return arrive, (arr, self.delays.get(float(first), 0.0) if first is not None else 0.0)


def arrive(arr, delay):
    time.sleep(delay)
    return arr


def delayed(arr, delays):
    """Longitudes whose part starting at scan k arrives delays[k] tenths of a second late."""
    out = arr.copy().view(Delayed)
    out.delays = {float(arr[10 * k, 0]): d / 10.0 for k, d in enumerate(delays) if 10 * k < len(arr)}
    return out


@st.composite
def cases(draw):
    case = draw(pipelines.with_swath(pipelines.full(("modis1kmto500m", "modis1kmto500m", "modis1kmto250m"),
                                                    max_scans=1)))
    case["cfg"]["scans"] = draw(st.integers(1, 5 if "500" in case["pipe"] else 3))
    case["cores"] = draw(st.lists(st.sampled_from([2, 3, 4, 5, 6, 7]), min_size=1, max_size=3, unique=True))
    case["keyword"] = draw(st.booleans())
    case["jump"] = draw(st.sampled_from([0, 0, 60]))
    if draw(st.booleans()):
        kind = draw(st.sampled_from(["first last", "any", "any"]))
        case["delays"] = [3, 2, 1, 0, 0] if kind == "first last" else draw(
            st.lists(st.integers(0, 3), min_size=5, max_size=5))
    return case


def check(case, rec):
    pipe = pipelines.build(case)
    lon, lat = gen.make_swath(case["swath"], pipe.rows, pipe.cols)
    if case["jump"]:
        lon = (lon + np.repeat(np.arange(case["cfg"]["scans"]) * case["jump"], 10)[:, None] + 180) % 360 - 180
    dtype = np.dtype(case["dtype"])
    lon, lat = lon.astype(dtype), lat.astype(dtype)
    func = pipelines.legacy_func(case["pipe"])
    one = [as_np(a) for a in call(func, lon, lat)]
    scans = case["cfg"]["scans"]
    for cores in case["cores"]:
        arg = delayed(lon, case["delays"]) if case.get("delays") else lon
        if case["keyword"]:
            many = call(func, arg, lat, cores=cores)
        else:
            many = call(func, arg, lat, cores)
        require(len(many) == 2, "%d results" % len(many))
        for a, b in zip(one, many):
            check_shape(as_np(b), a.shape, "result of %d processes" % cores)
        worst = check_places(many[0], many[1], one[0], one[1], 1e-3 if dtype == np.float64 else 5.0,
                             "%s with %d processes" % (case["pipe"], cores))
        rec.notes["metres " + case["dtype"]] = worst
        rec.label("cores=%d" % cores, "fewer scans than processes" if scans < cores else "enough scans",
                  "uneven parts" if scans % cores and scans > cores else "even parts")
    rec.label(case["pipe"], "scans=%d" % scans, case["dtype"])
    if case.get("delays") and scans > 1:
        rec.label("later parts finish first" if case["delays"][0] > case["delays"][1] else "parts delayed")
    rec.mark(scans > 1)


@st.composite
def bad_cases(draw):
    return {"pipe": draw(st.sampled_from(["modis1kmto500m", "modis1kmto250m"])), "cores": draw(st.integers(2, 5)),
            "scans": draw(st.integers(1, 3)), "good": draw(st.integers(0, 3)) == 0,
            "bad": draw(st.sampled_from(["rows of lat", "rows of lon", "rows", "cols", "cols of lat", "flat", "none",
                                         "one is none", "text", "late"]))}


def malformed(kind, scans):
    """Longitudes and latitudes that cannot be interpolated."""
    rows, cols = 10 * scans, 1354
    if kind == "rows":
        rows -= 3
    if kind == "cols":
        cols = 1000
    lon = np.linspace(0, 20, cols)[None] + np.zeros((rows, 1))
    lat = np.linspace(40, 40.01 * scans, rows)[:, None] + np.zeros((1, cols))
    if kind == "rows of lat":
        lat = lat[:-2]
    elif kind == "rows of lon":
        lon = lon[:-2]
    elif kind == "cols of lat":
        lat = lat[:, :-1]
    elif kind == "flat":
        lon, lat = lon[0], lat[0]
    elif kind == "none":
        lon = lat = None
    elif kind == "one is none":
        lat = None
    elif kind == "text":
        lat = np.full(lat.shape, "a")
    elif kind == "late":
        # only the last process meets it
        lat = lat.astype(object)
        lat[-1, -1] = "a"
    return lon, lat


def check_bad(case, rec):
    """Malformed data are refused all the same, and the processes end with the call."""
    func = pipelines.legacy_func(case["pipe"])
    before = set(p.pid for p in multiprocessing.active_children())
    if case["good"]:
        lon, lat = malformed("", case["scans"])
        call(func, lon, lat, cores=case["cores"])
    else:
        lon, lat = malformed(case["bad"], case["scans"])
        must_raise(func, lon, lat)
        must_raise(func, lon, lat, cores=case["cores"])
    end = time.monotonic() + 20
    while True:
        # objects without an owner go first: a failed call may have left its pool behind
        gc.collect()
        left = [p for p in multiprocessing.active_children() if p.pid not in before]
        if not left:
            break
        require(time.monotonic() < end, "%d processes are still there 20 s after the call" % len(left))
        time.sleep(0.05)
    rec.label("well-formed" if case["good"] else case["bad"], case["pipe"], "scans=%d" % case["scans"])
    rec.mark()


SUBCHECKS = [
    Sub("splits", split_cases(), check_splits, quick=12000, thorough=200000, rule="at least two parts", share=0.3),
    Sub("processes", cases(), check, quick=240, thorough=1500, rule="more than one scan"),
    Sub("refused", bad_cases(), check_bad, quick=150, thorough=1500, rule="every case", share=0.5),
]
SETTINGS = {"technique": "differential property-based testing (Hypothesis): several processes (delayed in drawn "
                         "orders) against one, and invariants of the splits"}
