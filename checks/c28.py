"""Part of a lazy result costs only its part of the work."""
import dask
import dask.array as da
import numpy as np
import scipy.interpolate
import xarray as xr
from hypothesis import strategies as st

from checks import c12, c15, pipelines
from lib import gen
from lib.core import Sub, as_np, call, check_places, check_shape, require


class Source:
    """An array that notes which of its rows are read."""

    def __init__(self, arr):
        self.arr = arr
        self.shape, self.dtype, self.ndim = arr.shape, arr.dtype, arr.ndim
        self.rows = np.zeros(len(arr), dtype=int)

    def __getitem__(self, index):
        part = index[0] if isinstance(index, tuple) else index
        if self.arr[index].size:
            self.rows[part] += 1
        return self.arr[index]


@st.composite
def cases(draw, pipes, max_scans):
    case = draw(pipelines.with_swath(pipelines.full(pipes, max_scans=1, zeniths=pipelines.CALM)))
    case["cfg"]["scans"] = draw(st.one_of(st.integers(max_scans // 2, max_scans), st.integers(1, max_scans)))
    if case["pipe"] in pipelines.SIMPLE:
        case["cfg"]["width"] = draw(st.integers(2, 20))
    elif "5km_to" in case["pipe"]:
        case["cfg"]["scans"] *= 2
    pipe = pipelines.build(case)
    kind = draw(st.sampled_from(["scans", "scans", "any", "uneven"]))
    per = pipe.scan[0]
    if kind == "scans":
        size = per * draw(st.integers(1, 3))
        chunks = [size] * (pipe.rows // size) + ([pipe.rows % size] if pipe.rows % size else [])
    elif kind == "any":
        size = min(draw(st.integers(1, 2 * per)), pipe.rows)
        chunks = [size] * (pipe.rows // size) + ([pipe.rows % size] if pipe.rows % size else [])
    else:
        chunks = draw(c15.splits(pipe.rows, per))
    cols = [pipe.cols] if draw(st.booleans()) else draw(c15.splits(pipe.cols, 10))
    case["chunks"] = [chunks, cols]
    case["labelled"] = draw(st.booleans())
    case["part"] = draw(st.lists(st.integers(0, 10 ** 6), min_size=2, max_size=2))
    return case


def check(case, rec):
    pipe = pipelines.build(case)
    lon, lat = gen.make_swath(case["swath"], pipe.rows, pipe.cols)
    dtype = np.dtype(case["dtype"])
    arrays = [lon.astype(dtype), lat.astype(dtype)]
    if case["pipe"] in pipelines.SIMPLE:
        func = pipelines.simple_func(case["pipe"])
    else:
        func = pipelines.cviirs_func(case["pipe"])
        arrays.append(pipe.satz.astype(dtype))
    sources = [Source(a) for a in arrays]
    args = [da.from_array(s, chunks=tuple(tuple(c) for c in case["chunks"])) for s in sources]
    if case["labelled"]:
        args = [xr.DataArray(a, dims=("y", "x")) for a in args]
    per = pipe.scan[0]
    factor = pipe.scan[1] // per
    rows = pipe.rows * factor
    first = case["part"][0] % rows
    last = min(first + case["part"][1] % (2 * per * factor), rows - 1)
    need = slice(first // factor // per * per, (last // factor // per + 1) * per)
    # neighbouring chunks at most: scans may be cut by chunks, and chunks are to be made of whole scans
    span = 2 * max(max(case["chunks"][0]), per)
    with dask.config.set(scheduler="synchronous"):
        res = call(func, *args)
        res = [getattr(r, "data", r) if hasattr(r, "dims") else r for r in res]
        what = "rows %d..%d of %s" % (first, last, case["pipe"])
        for arr in res:
            require(isinstance(arr, da.Array), "result is not lazy")
            require(max(arr.chunks[0]) <= span * factor, "%s: input chunks of %s rows, output chunks of %s"
                    % (case["pipe"], case["chunks"][0], arr.chunks[0]))
            require(all(c % (per * factor) == 0 for c in arr.chunks[0]), "%s: output chunks %s are not whole scans"
                    % (case["pipe"], arr.chunks[0]))
        require(not any(s.rows.any() for s in sources), "calling the function read its input")
        got = [as_np(call(r[first:last + 1].compute)) for r in res]
        read = [s.rows > 0 for s in sources]
        for num, seen in enumerate(read):
            out = np.flatnonzero(seen)
            require(seen[need].all(), "%s: input %d: rows %s were not read" % (what, num, need))
            require(out[0] >= need.start - span and out[-1] < need.stop + span,
                    "%s: rows %d..%d of input %d were read, chunks have %s rows"
                    % (what, out[0], out[-1], num, case["chunks"][0]))
    # the part is right, too: its scans alone
    ref = call(func, *[a[need].copy() for a in arrays])
    lo = first - need.start * factor
    ref = [as_np(r)[lo:lo + last - first + 1] for r in ref]
    check_shape(got[0], ref[0].shape, what)
    check_places(got[0], got[1], ref[0], ref[1], 1e-3 if dtype == np.float64 else 5.0, what)
    rec.label(case["pipe"], "labelled" if case["labelled"] else "lazy", "scans: %s" % (
        pipe.rows // per if pipe.rows // per < 4 else "4 or more"))
    rec.mark(need.start - span > 0 or need.stop + span < pipe.rows)


# ---------------------------------------------------------------- grid and spline interpolators

class Points(c12.Evaluations):
    """Counts the positions at which scipy's interpolators are evaluated."""

    def __enter__(self):
        self.points = 0
        self.saved = []
        for klass in self.CLASSES:
            orig = klass.__call__

            def counted(obj, *args, _orig=orig, **kwargs):
                res = _orig(obj, *args, **kwargs)
                self.points += np.size(res)
                return res

            self.saved.append((klass, klass.__dict__.get("__call__")))
            klass.__call__ = counted
        return self


@st.composite
def grid_cases(draw):
    spec = draw(c12.specs())
    spec["deriv"] = 0
    return {"spec": spec, "shape": [draw(st.integers(1, 60)), draw(st.integers(1, 60))],
            "chunk": [draw(st.integers(1, 60)), draw(st.integers(1, 60))],
            "part": draw(st.lists(st.integers(0, 10 ** 6), min_size=4, max_size=4))}


def check_grid(case, rec):
    spec, shape = case["spec"], case["shape"]
    interp, fine, opts, spec = c12.create(spec)
    fine = tuple(np.linspace(f[0], f[-1], n) if n > 1 else f[:1] for f, n in zip(fine, shape))
    chunks = tuple(case["chunk"])
    with dask.config.set(scheduler="synchronous"), Points() as counter:
        res = c12.listed(spec, call(interp.interpolate, fine, chunks=chunks, **opts))
        require(not counter.points, "asking for a chunked result evaluated %d positions" % counter.points)
        at = [p % n for p, n in zip(case["part"], shape)]
        end = [a + 1 + p % 5 for a, p in zip(at, case["part"][2:])]
        part = tuple(slice(a, min(e, n)) for a, e, n in zip(at, end, shape))
        touched = 1
        for sl, size, n in zip(part, chunks, shape):
            blocks = range(sl.start // size, (sl.stop - 1) // size + 1)
            touched *= sum(min((b + 1) * size, n) - b * size for b in blocks)
        single = []
        for num, arr in enumerate(res):
            counter.points = 0
            single.append(as_np(call(arr[part].compute)))
            most = touched * (3 if spec["family"] == "geo" else 1)
            require(counter.points <= most, "computing %s of array %d (%s, chunks %s) evaluated %d positions, its chunks "
                    "have %d" % (part, num, shape, chunks, counter.points, most))
        used = counter.points > 0
        direct = c12.listed(spec, call(interp.interpolate, fine, **opts))
        for got, ref in zip(single, direct):
            ref = as_np(ref)[part]
            check_shape(got, ref.shape, "part of the result")
            tol = 2e-8 if ref.dtype == np.float64 else 4e-3
            with np.errstate(all="ignore"):
                bad = ~(np.abs(got - ref) <= tol) & ~(np.isnan(got) & np.isnan(ref))
            require(not bad.any(), "part %s of the chunked result differs from the direct one" % (part,))
    rec.label(spec["family"], spec["klass"], "evaluations seen" if used else "no evaluations seen")
    rec.mark(used and touched < shape[0] * shape[1])


RULE = "some of the input lies beyond the neighbouring chunks"
SUBCHECKS = [
    Sub("simple", cases(pipelines.SIMPLE, 40), check, quick=900, thorough=15000, rule=RULE),
    Sub("cviirs", cases(pipelines.CVIIRS, 8), check, quick=300, thorough=6000, rule=RULE),
    Sub("grid", grid_cases(), check_grid, quick=900, thorough=20000, rule="the part touches only some of the chunks"),
]
SETTINGS = {"technique": "property-based testing (Hypothesis): recording input arrays and counted evaluations while "
                         "drawn parts of lazy results are computed"}
