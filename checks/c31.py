"""Memory grows in step with the data."""
import gc
import tracemalloc

import dask
import dask.array as da
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from checks import pipelines, targets
from lib import gen
from lib.core import Sub, call, require

SLACK = 150000      # bytes


def lazy(arr, chunks, labelled):
    arr = da.from_array(arr, chunks=chunks)
    return xr.DataArray(arr, dims=("y", "x")) if labelled else arr


class Work:
    """run() does the work on data that are factor times as long (or as wide) as those of factor 1."""

    def __init__(self, case, factor):
        self.case, self.name = case, case["t"]
        self.dtype = np.dtype(case["dtype"])
        rows, cols = case["rows"], case["cols"]
        fine = list(case["fine"])
        self.points = case["points"]
        if case["along"] == "rows":
            rows, fine[0] = rows * factor, fine[0] * factor
        elif case["along"] == "columns":
            cols, fine[1] = cols * factor, fine[1] * factor
        elif case["along"] == "fine":
            fine, self.points = [fine[0] * factor, fine[1]], self.points * factor
        else:
            rows = rows * factor
        self.rows, self.cols, self.fine, self.factor = rows, cols, fine, factor
        self.arrays = self.make()

    def make(self):
        name = self.name
        rows, cols, step = self.rows, self.cols, (0.001, 0.002)
        if name in pipelines.CVIIRS:
            five = "5km_to" in name
            per, cols = (2, 271) if five else (10, 1354)
            rows = per * self.case["scans"] * self.factor
        elif name in pipelines.SIMPLE:
            rows = 10 * self.case["scans"] * (self.factor if self.case["along"] != "columns" else 1)
        elif name in ("modis5kmto1km", "generic_modis5kmto1km"):
            rows, cols = 2 * self.case["scans"] * self.factor, 271
        elif name == "metop20kmto1km":
            rows, cols = 3 * self.case["scans"] * self.factor, 105
        elif name in pipelines.LEGACY:
            rows, cols = 10 * self.case["scans"] * self.factor, 1354
        elif name.startswith("vii"):
            rows = 4 * (rows // 4)
        arrays = [a.astype(self.dtype) for a in targets.swath(self.case["seed"], rows, cols, step)]
        if name in pipelines.CVIIRS:
            arrays.append(pipelines.zenith(rows, cols, "scan", 1).astype(self.dtype))
        return arrays

    def run(self):
        from geotiepoints import basic_interpolator, geointerpolator, interpolator, multilinear, viiinterpolator
        name, arrays, case = self.name, self.arrays, self.case
        if name in pipelines.CVIIRS + pipelines.SIMPLE:
            func = pipelines.cviirs_func(name) if name in pipelines.CVIIRS else pipelines.simple_func(name)
            if case["lazy"]:
                per = 2 if "5km_to" in name else 10
                arrays = [lazy(a, (per * case["lazy"], -1), case["labelled"]) for a in arrays]
            return call(func, *arrays)
        if name in pipelines.LEGACY:
            return call(pipelines.legacy_func(name), *arrays)
        if name == "generic_modis5kmto1km":
            return call(interpolator.generic_modis5kmto1km, *arrays)
        if name.startswith("vii"):
            boxed = [xr.DataArray(a, dims=("y", "x")) for a in arrays]
            if name == "vii_data":
                return call(viiinterpolator.tie_points_interpolation, boxed, 4, case["scans"])
            # in Cartesian coordinates, wherever the granule reaches
            return call(viiinterpolator.tie_points_geo_interpolation, *boxed, 4, case["scans"], -1)
        if name == "lonlat2xyz":
            return call(geointerpolator.lonlat2xyz, *arrays)
        if name == "xyz2lonlat":
            return call(geointerpolator.xyz2lonlat, arrays[0], arrays[1], arrays[0])
        ties = [np.arange(n) * 5.0 for n in arrays[0].shape]
        if name == "Basic":
            ties = [np.arange(n) * case["scans"] for n in arrays[0].shape]
            return call(call(basic_interpolator.BasicSatelliteInterpolator, ties[1], ties[0], *arrays).interpolate)
        if name == "Multilinear":
            dims = case["dims"]
            nodes = int(arrays[0].size ** (1 / dims) + 1e-9)
            interp = call(multilinear.MultilinearInterpolator, [0] * dims, [1] * dims, [nodes] * dims,
                          np.stack([a.ravel()[:nodes ** dims] for a in arrays]), dtype=self.dtype.type)
            points = np.linspace(0, 1, dims * self.points).reshape(dims, -1).astype(self.dtype)
            return call(interp, points), call(lambda: interp.grid)
        # never the tie rows themselves (but for case["oned"]), which need less work
        fine = [np.linspace(0.5, t[-1] - 0.5, n) for t, n in zip(ties, self.fine)]
        if name in ("Interpolator", "GeoInterpolator"):
            klass = getattr(geointerpolator if name[0] == "G" else interpolator, name)
            if case["fill"]:
                fine[1] = np.linspace(-2, ties[1][-1] + 2, self.fine[1])
            if case["oned"]:
                fine[0] = ties[0]
            interp = call(klass, arrays, ties, fine, case["kx"], case["ky"])
            if case["fill"]:
                call(interp.fill_borders, "x")
            return call(interp.interpolate)
        klass = getattr(geointerpolator if name.startswith("Geo") else interpolator, name)
        interp = call(klass, ties, *(arrays[:1] if name.startswith("Single") else arrays))
        kwargs = {"chunks": (60, 60)} if case["lazy"] else {}
        res = call(interp.interpolate, tuple(fine), **kwargs)
        return [res] if name.startswith("Single") else list(res)


def peak(case, factor):
    """Peak of the memory (bytes) of the work, and the bytes of what goes in and what comes out."""
    work = Work(case, factor)
    gc.collect()
    tracemalloc.start()
    try:
        base = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        with dask.config.set(scheduler="synchronous"):
            res = targets.values(list(work.run()))
        top = tracemalloc.get_traced_memory()[1] - base
    finally:
        tracemalloc.stop()
    return top, sum(a.nbytes for a in work.arrays), sum(np.asarray(r).nbytes for r in res)


@st.composite
def cases(draw):
    long, short = st.sampled_from([60, 150, 400, 700]), st.sampled_from([4, 6, 9, 20])
    shape = draw(st.sampled_from(["long", "wide", "square"]))
    sizes = {"long": (long, short), "wide": (short, long), "square": (st.just(60), st.just(60))}[shape]
    names = sorted(targets.TARGETS)
    case = {"t": draw(st.sampled_from(names)), "dtype": draw(gen.dtypes), "seed": draw(st.integers(0, 1000)),
            "rows": draw(sizes[0]), "cols": draw(sizes[1]), "fine": [draw(sizes[0]), draw(sizes[1])],
            "scans": draw(st.integers(1, 4)), "factor": draw(st.integers(2, 5)), "points": draw(st.sampled_from([500, 5000])),
            "along": draw(st.sampled_from(["rows", "rows", "columns", "columns", "fine", "ties"])),
            "lazy": draw(st.sampled_from([0, 0, 1, 3])), "labelled": draw(st.booleans()), "dims": draw(st.integers(1, 4)),
            "kx": draw(st.integers(1, 3)), "ky": draw(st.integers(1, 3)), "oned": draw(st.booleans()),
            "fill": draw(st.booleans())}
    return case


def check(case, rec):
    peak(case, 1)          # imports, caches
    one, in1, out1 = peak(case, 1)
    many, in2, out2 = peak(case, case["factor"])
    growth = max(in2 / in1, out2 / out1, 1)
    limit = 1.15 * growth * one + SLACK
    rec.notes["peak / limit"] = many / limit
    rec.notes["peak / data %s" % case["t"]] = one / (in1 + out1)
    require(many <= limit, "%s: %d bytes of input and %d of output take %d at the peak, %d and %d take %d (more than %.1f "
            "times as much)" % (case["t"], in1, out1, one, in2, out2, many, growth))
    rec.label(case["t"], "along " + case["along"], "lazy" if case["lazy"] else "in memory")
    rec.mark(growth > 1.5 and one > SLACK)


SUBCHECKS = [
    Sub("peak", cases(), check, quick=2000, thorough=30000, rule="the data grow, and are not small next to the slack"),
]
SETTINGS = {"technique": "property-based testing (Hypothesis): traced peak memory of the same work on longer data"}
