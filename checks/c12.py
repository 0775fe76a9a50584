"""Lazy results stay lazy and can be computed together."""
import dask
import dask.array as da
import numpy as np
import scipy.interpolate
from dask.callbacks import Callback
from geotiepoints import geointerpolator, interpolator
from hypothesis import strategies as st

from lib import gen
from lib.core import Sub, as_np, call, check_close, must_raise, require

FIELDS = ["data", "rows", "cols", "klass", "method", "at_call", "kx", "ky", "bounds", "fine_rows", "fine_cols",
          "chunks", "family", "dtype", "deriv"]


@st.composite
def specs(draw, base=None, fields=FIELDS):
    fresh = {
        "family": draw(st.sampled_from(["single", "multiple", "geo"])),
        "klass": draw(st.sampled_from(["Grid", "Spline"])),
        "data": draw(st.integers(0, 5)),
        "rows": draw(st.integers(0, 3)), "cols": draw(st.integers(0, 3)),
        "method": draw(st.sampled_from(["linear", "nearest", "slinear", "pchip"])),
        "at_call": draw(st.booleans()),
        "kx": draw(st.integers(1, 3)), "ky": draw(st.integers(1, 3)),
        "deriv": draw(st.sampled_from([0, 0, 1, 2])),
        "bounds": draw(st.sampled_from(["error", "nan", "number", "other", "extrapolate"])),
        "fine_rows": draw(st.integers(0, 5)), "fine_cols": draw(st.integers(0, 5)),
        "chunks": draw(st.sampled_from([2, 3, [2, 3], -1])),
        "dtype": draw(gen.dtypes),
    }
    if base is None:
        return fresh
    out = dict(base)
    for field in draw(st.lists(st.sampled_from(fields), min_size=1, max_size=2)):
        out[field] = fresh[field]
    return out


@st.composite
def cases(draw):
    base = draw(specs())
    calls = draw(st.integers(0, 2)) == 0         # calls of one interpolator that differ in their arguments
    if calls:
        base.update(at_call=True, kx=draw(st.integers(2, 3)), ky=draw(st.integers(2, 3)))
    fields = ["method", "deriv", "method", "deriv", "fine_rows", "fine_cols", "chunks"] if calls else FIELDS
    variants = [base] + [draw(specs(base, fields)) for _ in range(draw(st.integers(1, 4)))]
    return {"specs": variants, "seed": draw(gen.seeds), "share": calls or draw(st.booleans()),
            "combine": draw(st.sampled_from(["compute", "compute", "stack", "difference"])),
            "scheduler": draw(st.sampled_from(["synchronous", "synchronous", "threads"]))}


def tie_positions(kind, num):
    base = np.arange(num, dtype=float)
    return [base * 2, base * 2 + 1, base ** 1.5 * 1.5, base * 3][kind]


def fine_positions(kind, tie):
    lo, hi = tie[0], tie[-1]
    return [np.linspace(lo, hi, 6), np.linspace(lo, hi, 7), np.linspace(lo + 0.5, hi - 0.5, 6),
            np.linspace(lo, hi - 1, 6), np.array([lo, lo + 0.25, lo + 0.5, hi - 2, hi - 0.7, hi]),
            np.linspace(lo, (lo + hi) / 2, 5)][kind]


def settled(spec):
    """Fields that go together."""
    spec = dict(spec)
    if spec["klass"] == "Grid" and spec["method"] in ("pchip", "slinear"):
        spec["bounds"] = "error"
    return spec


def create(spec, outside=False, pool=None):
    spec = settled(spec)
    rows, cols = tie_positions(spec["rows"], 5), tie_positions(spec["cols"], 6)
    frows, fcols = fine_positions(spec["fine_rows"], rows), fine_positions(spec["fine_cols"], cols)
    if spec["klass"] == "Grid" and (spec["bounds"] != "error" or outside):
        fcols = np.append(fcols, [cols[-1] + 1.25])
    rng = np.random.default_rng(spec["data"])
    dtype = np.dtype(spec["dtype"])
    init, opts = {}, {}
    if spec["klass"] == "Grid":
        (opts if spec["at_call"] else init)["method"] = spec["method"]
        init.update({"error": {"bounds_error": True}, "nan": {"bounds_error": False},
                     "number": {"bounds_error": False, "fill_value": 3.0},
                     "other": {"bounds_error": False, "fill_value": 4.0},
                     "extrapolate": {"bounds_error": False, "fill_value": None}}[spec["bounds"]])
    else:
        init.update(kx=spec["kx"], ky=spec["ky"])
        if spec["deriv"] and spec["family"] != "geo" and min(spec["kx"], spec["ky"]) > 1:
            opts = {"dx": 1} if spec["deriv"] == 1 else {"dy": 1}
    lon = spec["data"] * 30.0 - 60 + np.arange(6)[None] + np.arange(5)[:, None] * 0.5
    lat = 40.0 - np.arange(5)[:, None] + rng.uniform(-0.1, 0.1, (5, 6)) + 0.2 * spec["data"]
    if spec["family"] == "geo":
        klass, arrays = getattr(geointerpolator, "Geo%sInterpolator" % spec["klass"]), [lon, lat]
    elif spec["family"] == "multiple":
        klass, arrays = getattr(interpolator, "Multiple%sInterpolator" % spec["klass"]), [lon, lat, lon - lat]
    else:
        klass, arrays = getattr(interpolator, "Single%sInterpolator" % spec["klass"]), [lat]
    arrays = [a.astype(dtype) for a in arrays]
    key = repr((klass.__name__, spec["data"], spec["rows"], spec["cols"], str(dtype), sorted(init.items(), key=str)))
    if pool is not None and key in pool:
        interp = pool[key]
    else:
        interp = call(klass, (rows, cols), *arrays, **init)
        if pool is not None:
            pool[key] = interp
    return interp, (frows, fcols), opts, spec


class Evaluations:
    """Counts evaluations of the scipy interpolators while active (nothing is concluded if they are never used)."""

    CLASSES = (scipy.interpolate.RegularGridInterpolator, scipy.interpolate.RectBivariateSpline)

    def __init__(self):
        self.calls = 0

    def __enter__(self):
        self.saved = []
        for klass in self.CLASSES:
            orig = klass.__call__

            def counted(obj, *args, _orig=orig, **kwargs):
                self.calls += 1
                return _orig(obj, *args, **kwargs)

            self.saved.append((klass, klass.__dict__.get("__call__")))
            klass.__call__ = counted
        return self

    def __exit__(self, *exc):
        for klass, orig in self.saved:
            if orig is None:
                del klass.__call__
            else:
                klass.__call__ = orig


class Tasks(Callback):
    def __init__(self):
        self.count = 0

    def _pretask(self, key, dsk, state):
        self.count += 1


def listed(spec, res):
    return [res] if spec["family"] == "single" else call(list, res)


def check(case, rec):
    tasks = Tasks()
    lazies, direct = [], []
    with tasks, Evaluations() as counter, dask.config.set(scheduler=case["scheduler"]):
        pool = {} if case["share"] else None
        made = [create(spec, pool=pool) for spec in case["specs"]]
        before = counter.calls
        groups = []
        for interp, fine, opts, spec in made:
            chunks = tuple(spec["chunks"]) if isinstance(spec["chunks"], list) else spec["chunks"]
            res = listed(spec, call(interp.interpolate, fine, chunks=chunks, **opts))
            groups.append(res)
        require(tasks.count == 0, "creating lazy results ran %d tasks" % tasks.count)
        require(counter.calls == before, "creating lazy results evaluated the interpolator %d times"
                % (counter.calls - before))
        for (interp, fine, opts, spec), group in zip(made, groups):
            # alone, from an interpolator of its own
            fresh, fine_, opts_, _ = create(spec)
            ref = listed(spec, call(fresh.interpolate, fine_, **opts_))
            require(len(ref) == len(group), "%d lazy results, %d direct ones" % (len(group), len(ref)))
            for lazy, values in zip(group, ref):
                require(isinstance(lazy, da.Array), "result is not lazy but %s" % type(lazy).__name__)
                lazies.append(lazy)
                direct.append(as_np(values))
        names = "lazy result %d of " + str(len(lazies))
        if case["combine"] == "compute":
            together = call(dask.compute, *lazies)
        elif case["combine"] == "stack":
            flat = call(da.concatenate([lz.ravel() for lz in lazies]).compute)
            together, at = [], 0
            for lz in lazies:
                together.append(flat[at:at + lz.size].reshape(lz.shape))
                at += lz.size
        else:
            together = list(lazies)
            for num in range(0, len(lazies) - 1):
                a, b = lazies[num], lazies[num + 1]
                r, c = min(a.shape[0], b.shape[0]), min(a.shape[1], b.shape[1])
                diff = call((a[:r, :c].astype(float) - b[:r, :c].astype(float)).compute)
                expected = direct[num][:r, :c].astype(float) - direct[num + 1][:r, :c].astype(float)
                check_close(diff, expected, 1e-9 if a.dtype == b.dtype == np.float64 else 1e-3,
                            "difference of results %d and %d" % (num, num + 1))
            together = call(dask.compute, *lazies[::-1])[::-1]
        for num, (got, ref) in enumerate(zip(together, direct)):
            tol = (1e-10 if ref.dtype == np.float64 else 2e-5) * 200
            check_close(got, ref, tol, names % num)
        for num in (case["seed"] % len(lazies), (case["seed"] // 7) % len(lazies)):
            again = call(lazies[num].compute)
            require(np.array_equal(again, together[num], equal_nan=True), "computing result %d again changed it" % num)
    used = [s for s in FIELDS if len({repr(spec[s]) for spec in map(settled, case["specs"])}) > 1]
    rec.label(*["differ in " + s for s in used])
    rec.label("specs=%d" % len(case["specs"]), case["combine"], case["scheduler"])
    rec.mark(bool(used))


@st.composite
def error_cases(draw):
    spec = draw(specs())
    spec.update(klass="Grid", bounds="error")
    return {"spec": spec}


def check_error(case, rec):
    """Positions outside of the tie grid never give values."""
    spec = case["spec"]
    interp, fine, opts, spec = create(spec, outside=True)
    chunks = tuple(spec["chunks"]) if isinstance(spec["chunks"], list) else spec["chunks"]
    rec.label(spec["family"], spec["method"])
    rec.mark()
    with dask.config.set(scheduler="synchronous"):
        must_raise(lambda: [lazy.compute() for lazy in listed(spec, interp.interpolate(fine, chunks=chunks, **opts))])


SUBCHECKS = [
    Sub("together", cases(), check, quick=1440, thorough=25000, rule="the results differ in at least one argument"),
    Sub("late_error", error_cases(), check_error, quick=360, thorough=3000, rule="every case"),
]
SETTINGS = {"technique": "property-based testing (Hypothesis): joint computation of related lazy results against eager ones"}
