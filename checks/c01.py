"""Multilinear interpolation blends the corners of the right grid cell."""
import numpy as np
from geotiepoints.multilinear import MultilinearInterpolator
from hypothesis import strategies as st

from lib import gen, models
from lib.core import Sub, call, check_close, require

MAXP = {"float32": 1e8, "float64": 1e30}


@st.composite
def grids(draw):
    d = draw(st.integers(1, 4))
    orders = draw(st.lists(st.integers(2, {1: 40, 2: 12, 3: 8, 4: 6}[d]), min_size=d, max_size=d))
    bounds = []
    for _ in range(d):
        lo = draw(st.one_of(st.sampled_from([0.0, -1.0, 100.0]), gen.dec(-50, 50)))
        width = draw(st.one_of(st.sampled_from([1.0, 2.0, 0.1]), gen.dec(0.01, 300)))
        bounds.append([lo, lo + max(width, 0.01)])
    return {"orders": orders, "bounds": bounds, "dtype": draw(gen.dtypes),
            "rows": draw(st.integers(1, 4)), "vseed": draw(gen.seeds),
            "vkind": draw(st.sampled_from(["random", "impulse", "index", "offset"]))}


@st.composite
def cases(draw):
    grid = draw(grids())
    d = len(grid["orders"])
    pts = []
    far = "none"
    for _ in range(draw(st.integers(1, 12))):
        pt = []
        for k in range(d):
            n = grid["orders"][k]
            kind = draw(st.sampled_from(["in", "in", "node", "near", "out", "far"]))
            if kind == "in":
                pt.append(draw(st.integers(0, (n - 1) * 64)) / 64.0 + draw(st.sampled_from([0, 0.003])))
            elif kind == "node":
                pt.append(float(draw(st.integers(0, n - 1))))
            elif kind == "near":
                pt.append(draw(st.integers(0, n - 1)) + draw(st.sampled_from([-1e-9, 1e-9, 1e-4, -1e-4])))
            elif kind == "out":
                pt.append(draw(st.sampled_from([-0.25, -1.5, n - 0.5, n + 3.0])))
            elif far == "none":
                far = "used"
                pt.append(draw(st.sampled_from([1.0, -1.0])) * 10.0 ** draw(
                    st.integers(1, 8 if grid["dtype"] == "float32" else 30)))
            else:
                pt.append(0.5)
        pts.append(pt)
        far = "none"
    return {"grid": grid, "pts": pts, "bulk": draw(st.sampled_from([0, 0, 3, 50, 700])), "seed": draw(gen.seeds),
            "layout": draw(st.sampled_from(["C", "F", "strided", "readonly"]))}


def make_values(grid):
    size = int(np.prod(grid["orders"]))
    rng = np.random.default_rng(grid["vseed"])
    rows = grid["rows"]
    if grid["vkind"] == "random":
        return rng.normal(size=(rows, size))
    if grid["vkind"] == "impulse":
        vals = np.zeros((rows, size))
        vals[np.arange(rows), rng.integers(0, size, rows)] = 1.0
        return vals
    if grid["vkind"] == "index":
        return (np.arange(size)[None] * (1.0 + np.arange(rows))[:, None]) % 17
    return 1000.0 + rng.uniform(-1, 1, size=(rows, size)) * (10.0 ** (np.arange(rows) % 9))[:, None]


def points_of(case, dtype):
    grid = case["grid"]
    pos = np.array(case["pts"], dtype=float).T
    if case["bulk"]:
        rng = np.random.default_rng(case["seed"])
        n = np.array(grid["orders"])[:, None]
        pos = np.hstack([pos, rng.uniform(-0.7, n - 0.3, size=(len(n), case["bulk"]))])
    lo = np.array([b[0] for b in grid["bounds"]])[:, None]
    hi = np.array([b[1] for b in grid["bounds"]])[:, None]
    pts = lo + (hi - lo) * pos / (np.array(grid["orders"])[:, None] - 1)
    return pts.astype(dtype), pos


def check(case, rec):
    grid = case["grid"]
    dtype = np.dtype(grid["dtype"]).type
    smin = [b[0] for b in grid["bounds"]]
    smax = [b[1] for b in grid["bounds"]]
    values = make_values(grid).astype(dtype)
    pts, pos = points_of(case, dtype)
    rec.label("d=%d" % len(smin), grid["dtype"])
    if (np.abs(pos) > 1e3).any():
        rec.label("far outside")
    rec.mark(values.std() > 0 and ((pos >= 0) & (pos < np.array(grid["orders"])[:, None] - 1)).all(axis=0).any())
    kwargs = {} if dtype is np.float64 and case["seed"] % 2 else {"dtype": dtype}
    interp = call(MultilinearInterpolator, smin, smax, grid["orders"], gen.layout(values, case["layout"]), **kwargs)
    arg = gen.layout(pts, case["layout"])
    res = call(interp, arg)
    require(getattr(res, "dtype", None) == np.dtype(dtype), "result dtype %s, asked for %s" % (
        getattr(res, "dtype", None), grid["dtype"]))
    eps = float(np.finfo(dtype).eps)
    fmin, fmax = (np.asarray(b, dtype=dtype).astype(np.longdouble) for b in (smin, smax))
    # bounds and points are given in the interpolator's precision: differences of nearly equal numbers are exact
    expected, tol = models.multilinear(fmin, fmax, grid["orders"], values, pts.astype(np.longdouble), eps)
    worst = check_close(res, expected, tol, "interpolated values")
    rec.notes["abs error"] = worst if np.isfinite(worst) and np.abs(pos).max() < 1e3 else 0.0
    # one point and one row at a time
    k = case["seed"] % pts.shape[1]
    r = case["seed"] % values.shape[0]
    single = call(MultilinearInterpolator, smin, smax, grid["orders"], values[r:r + 1], dtype=dtype)
    one = call(single.interpolate, pts[:, k:k + 1])
    check_close(one, expected[r:r + 1, k:k + 1], tol[r:r + 1, k:k + 1], "single point and row")


@st.composite
def large_grids(draw):
    d = draw(st.integers(1, 4))
    orders = [draw(st.integers(2, {1: 70000, 2: 300, 3: 50, 4: 20}[d])) for _ in range(d)]
    if draw(st.integers(0, 5)) == 0:
        orders = [draw(st.integers(2, {1: 2000, 2: 40, 3: 12, 4: 7}[d])) for _ in range(d)]
    elif d > 1 and draw(st.booleans()):
        # all nodes along one or two directions: a node apart along the others is many nodes apart in memory
        orders = [2] * d
        long = draw(st.lists(st.integers(0, d - 1), min_size=1, max_size=2, unique=True))
        for k in long:
            orders[k] = draw(st.integers(*((20000, 70000) if len(long) == 1 else (130, 400))))
    bounds = []
    for _ in range(d):
        lo = draw(st.sampled_from([0.0, -1.0, -40.0, 1e3]))
        bounds.append([lo, lo + draw(st.sampled_from([1.0, 5.0, 1e4]))])
    return {"orders": orders, "bounds": bounds, "dtype": draw(gen.dtypes), "rows": draw(st.integers(1, 9)),
            "vseed": draw(gen.seeds), "vkind": draw(st.sampled_from(["random", "index", "offset"]))}


@st.composite
def large_cases(draw):
    grid = draw(large_grids())
    pts = [[n - 1.5 for n in grid["orders"]], [n / 2 for n in grid["orders"]]]
    bulk = draw(st.sampled_from([100, 700, 5000, 20000, 70000]))
    if np.prod(grid["orders"]) < 3000:
        # many functions on the grid
        grid["rows"], bulk = draw(st.sampled_from([9, 140, 260])), min(bulk, 700)
    elif bulk == 70000:
        grid["rows"] = 2
    return {"grid": grid, "pts": pts, "bulk": bulk, "seed": draw(gen.seeds),
            "layout": draw(st.sampled_from(["C", "F", "strided", "readonly"]))}


SUBCHECKS = [
    Sub("blend", cases(), check, quick=9600, thorough=60000,
        rule="values are not constant and at least one query lies inside the grid"),
    Sub("large", large_cases(), check, quick=720, thorough=4000,
        rule="values are not constant and at least one query lies inside the grid"),
]
SETTINGS = {"technique": "property-based testing (Hypothesis) against an extended-precision reference model",
            "assumptions": ["bounds with smin < smax; at most 70000 nodes (1-D), 300 by 300, 50 cubed or 20 to the fourth, or up to "
                            "640000 with two nodes along some directions"]}
