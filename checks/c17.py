"""Compiled kernels write every output pixel and stay inside their arrays.

Half of the processes run a build with AddressSanitizer; in the others the heap is filled with different patterns
before each of two identical calls.
"""
import ctypes

import numpy as np
from geotiepoints.multilinear import MultilinearInterpolator
from geotiepoints.multilinear_cython import multilinear_interpolation
from hypothesis import strategies as st

from checks import pipelines
from lib import gen
from lib.core import Sub, Violation, as_np, call, check_close, require

M_PERTURB = -6
PATTERNS = (0x80, 0xc0)      # new memory is filled with the complement: 3.4e38 / 1.4e306 and 0.75 / 4.8e-4
LIBC = ctypes.CDLL(None)


def poison(pattern):
    """Fill all memory that is allocated from now on, including the small blocks numpy keeps, with a pattern."""
    LIBC.mallopt(M_PERTURB, pattern)
    keep = [np.full(size, pattern ^ 0xff, dtype=np.uint8) for size in range(4, 1024, 4) for _ in range(7)]
    del keep


def outcome(func, args):
    try:
        res = func(*args)
    except Exception as err:
        return type(err).__name__, None
    return "result", [np.array(as_np(r)) for r in (res if isinstance(res, tuple) else (res,))]


def twice(func, args, what):
    """The outcome of a call, after making sure that what is in fresh memory does not matter."""
    try:
        poison(PATTERNS[0])
        kind, first = outcome(func, args)
        poison(PATTERNS[1])
        again, second = outcome(func, args)
    finally:
        LIBC.mallopt(M_PERTURB, 0)
    require(kind == again, "%s: %s, then %s with other contents of fresh memory" % (what, kind, again))
    if kind == "result":
        for a, b in zip(first, second):
            require(a.shape == b.shape and a.dtype == b.dtype, "%s: shape %s, then %s" % (what, a.shape, b.shape))
            same(a, b, what + ", with other contents of fresh memory")
    return kind, first


def same(a, b, what):
    if np.array_equal(a, b, equal_nan=True):
        return
    eps = float(np.finfo(a.dtype).eps)
    with np.errstate(all="ignore"):
        check_close(b, a, 64 * eps * (1 + np.abs(np.where(np.isfinite(a), a, 0))), what)


class Guarded:
    """An array inside a larger one whose other elements must neither be used nor change."""

    def __init__(self, arr, kind):
        self.arr = gen.layout(arr.copy(), kind)
        self.base = self.arr if self.arr.base is None else self.arr.base
        while self.base.base is not None:
            self.base = self.base.base
        self.before = self.base.copy()

    def check(self, what):
        require(np.array_equal(self.base, self.before, equal_nan=True),
                "%s changed the memory of an argument" % what)


FUNCS = pipelines.CVIIRS + pipelines.SIMPLE


@st.composite
def modis_cases(draw):
    name = draw(st.sampled_from(FUNCS + ("modis_5km_to_1km", "modis_1km_to_500m") + pipelines.SIMPLE))
    case = {"pipe": name, "seed": draw(gen.seeds), "dtype": draw(gen.dtypes),
            "layout": draw(st.sampled_from(["C", "F", "strided", "reversed", "window"])),
            "fill": draw(st.sampled_from(["swath", "random", "constant", "nan", "huge"]))}
    scans = draw(st.sampled_from([1, 2, 3, 1, 2, 0]))
    case["rows"] = scans * (2 if "5km_to" in name else 10)
    if name in pipelines.SIMPLE:
        case["cols"] = draw(st.one_of(st.integers(2, 60), st.sampled_from([1354, 1353, 677])))
    elif "5km_to" in name:
        case["cols"] = draw(st.sampled_from([270, 271]))
    else:
        case["cols"] = 1354
    return case


@st.composite
def odd_cases(draw):
    """Sizes that do not fit, which may or may not be refused."""
    case = draw(modis_cases())
    shapes = []
    width = case["cols"]
    for _ in range(2 if case["pipe"] in pipelines.SIMPLE else 3):
        shapes.append([case["rows"], width])
    for _ in range(draw(st.integers(1, 3))):
        which = draw(st.integers(0, len(shapes) - 1))
        axis = draw(st.sampled_from([0, 1, 1]))
        if draw(st.booleans()):
            size = max(0, shapes[which][axis] + draw(st.sampled_from([-2, -1, 1, 2, 5, -5, 84, -84])))
        else:
            size = draw(st.sampled_from([0, 1, 2, 3, 9, 10, 11, 20, 269, 270, 271, 272, 1353, 1354, 1355]))
        for k in range(len(shapes)):
            if k == which or draw(st.integers(0, 3)) == 0:
                shapes[k][axis] = size
    case["shapes"] = shapes
    return case


def field(case, rows, cols):
    rng = np.random.default_rng(case["seed"])
    kind = case["fill"]
    size = (rows, cols)
    if kind == "swath" and rows and cols:
        par = {"kind": "tangent", "lon0": float(rng.uniform(-180, 180)), "lat0": float(rng.uniform(-90, 90)),
               "az": float(rng.uniform(0, 360)), "sr": 0.01, "sc": 0.01, "bend": 0.0, "ar": 0.5, "ac": 0.5}
        lon, lat = gen.make_swath(par, rows, cols)
        satz = np.tile(np.abs(np.linspace(-65, 65, cols)), (rows, 1))
    elif kind == "constant":
        lon, lat, satz = np.full(size, 20.0), np.full(size, -30.0), np.full(size, 40.0)
    else:
        lon, lat, satz = rng.uniform(-180, 180, size), rng.uniform(-90, 90, size), rng.uniform(0, 80, size)
    if kind == "nan":
        for arr in (lon, lat, satz):
            arr[rng.random(size) < 0.05] = np.nan
    if kind == "huge":
        for arr in (lon, lat, satz):
            arr[rng.random(size) < 0.05] = rng.choice([1e30, -1e30, np.inf, -999.0])
    dtype = np.dtype(case["dtype"])
    return [a.astype(dtype) for a in (lon, lat, satz)]


def function(name):
    import warnings

    func = pipelines.simple_func(name) if name in pipelines.SIMPLE else pipelines.cviirs_func(name)

    def quiet(*args):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return func(*args)

    return quiet


def check_modis(case, rec):
    name = case["pipe"]
    arrays = field(case, case["rows"], case["cols"])[:2 if name in pipelines.SIMPLE else 3]
    func = function(name)
    kind, plain = twice(func, arrays, name)
    require(kind == "result" or case["rows"] == 0, "%s raised %s for %d x %d" % (name, kind, case["rows"], case["cols"]))
    if case["layout"] != "C" and kind == "result":
        guarded = [Guarded(a, case["layout"]) for a in arrays]
        res = call(func, *[g.arr for g in guarded])
        for g in guarded:
            g.check(name)
        for a, b in zip(plain, res):
            same(a, as_np(b), "%s of %s arrays" % (name, case["layout"]))
    rec.label(name, case["dtype"], case["layout"], case["fill"], "scans=%d" % (case["rows"] // (2 if "5km_to" in name else 10)))
    rec.mark(case["rows"] > 0)


def check_odd(case, rec):
    name = case["pipe"]
    arrays = []
    for num, shape in enumerate(case["shapes"]):
        arrays.append(Guarded(field(case, *shape)[num], case["layout"]))
    kind, _ = twice(function(name), [g.arr for g in arrays], "%s of %s" % (name, case["shapes"]))
    for g in arrays:
        g.check(name)
    rec.label(name, "accepted" if kind == "result" else "refused", case["layout"])
    rec.mark(len(set(map(tuple, case["shapes"]))) > 1 or kind != "result")


@st.composite
def linear_cases(draw):
    d = draw(st.integers(1, 4))
    orders = draw(st.lists(st.integers(2, 6), min_size=d, max_size=d))
    return {"orders": orders, "rows": draw(st.integers(1, 3)), "dtype": draw(gen.dtypes),
            "n": draw(st.sampled_from([1, 2, 3, 7, 64, 500])), "seed": draw(gen.seeds),
            "where": draw(st.lists(st.sampled_from(["inside", "edge", "outside", "far", "nan", "inf", "huge"]),
                                   min_size=1, max_size=3)),
            "layout": draw(st.sampled_from(["C", "F", "strided", "window"])),
            "spoil": draw(st.sampled_from(["no", "no", "no", "values", "orders", "points", "smin", "small order",
                                           "empty"])),
            "by": draw(st.sampled_from([-1, 1, 3]))}


def check_linear(case, rec):
    rng = np.random.default_rng(case["seed"])
    dtype = np.dtype(case["dtype"])
    d = len(case["orders"])
    orders = list(case["orders"])
    size = int(np.prod(orders))
    points = d
    smin, smax = np.zeros(d), np.ones(d)
    spoil, by = case["spoil"], case["by"]
    n = case["n"]
    if spoil == "values":
        size = max(0, size + by)
    elif spoil == "orders":
        orders[-1] += by
    elif spoil == "points":
        points = max(0, d + by)
    elif spoil == "smin":
        smin = np.zeros(max(0, d + by))
    elif spoil == "small order":
        size //= orders[0]
        orders[0] = 1
    elif spoil == "empty":
        n = 0
    values = rng.normal(size=(case["rows"], size)).astype(dtype)
    pts = rng.uniform(0, 1, (points, n))
    kinds = rng.integers(0, len(case["where"]), pts.shape)
    top = 1e37 if dtype == np.float32 else 1e300
    for k, where in enumerate(case["where"]):
        new = {"inside": pts, "edge": rng.choice([0.0, 1.0, np.nextafter(1, 2), np.nextafter(1, 0), -1e-17], pts.shape),
               "outside": rng.uniform(-3, 4, pts.shape), "far": rng.choice([1e7, -1e7, 3e9, -3e9, 1e19], pts.shape),
               "nan": np.full(pts.shape, np.nan), "inf": rng.choice([np.inf, -np.inf], pts.shape),
               "huge": rng.choice([top, -top], pts.shape)}[where]
        pts = np.where(kinds == k, new, pts)
    pts = Guarded(pts.astype(dtype), case["layout"] if pts.size else "C")
    values = Guarded(values, case["layout"] if values.size else "C")

    def run(values, pts):
        interp = MultilinearInterpolator(smin, smax, orders, values=values, dtype=dtype)
        with np.errstate(all="ignore"):
            return interp(pts)

    kind, res = twice(run, [values.arr, pts.arr], "multilinear interpolation")
    values.check("multilinear interpolation")
    pts.check("multilinear interpolation")
    require(kind == "result" or spoil != "no", "multilinear interpolation raised %s" % kind)
    if kind == "result" and spoil == "no":
        require(res[0].shape == (case["rows"], n), "result of shape %s" % (res[0].shape,))
        # the kernel itself
        args = [np.asarray(smin, dtype), np.asarray(smax, dtype), np.asarray(orders, "long"),
                np.ascontiguousarray(values.arr), np.ascontiguousarray(pts.arr)]
        _, direct = twice(multilinear_interpolation, args, "multilinear kernel")
        require(direct is not None, "the kernel refused what the interpolator accepted")
        same(res[0], direct[0], "multilinear kernel")
    rec.label("d=%d" % d, case["dtype"], "spoiled: " + spoil if spoil != "no" else "valid", *case["where"])
    rec.label("refused" if kind != "result" else "accepted")
    rec.mark(spoil != "no" or case["where"] != ["inside"])


SUBCHECKS = [
    Sub("modis", modis_cases(), check_modis, quick=240, thorough=6000, rule="at least one scan"),
    Sub("odd_sizes", odd_cases(), check_odd, quick=600, thorough=15000,
        rule="the arrays differ in shape, or the input is refused"),
    Sub("multilinear", linear_cases(), check_linear, quick=1200, thorough=30000,
        rule="points other than well inside of the grid, or arguments that do not fit"),
]
SETTINGS = {"technique": "fuzzing with Hypothesis under AddressSanitizer, and metamorphic checks of memory contents",
            "asan": True, "assumptions": ["out-of-bounds accesses that stay inside one heap block are seen only by their "
                                          "effect (NaN paddings)"]}
