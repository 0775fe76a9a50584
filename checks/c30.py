"""Work leaves nothing behind."""
import ctypes
import functools
import gc
import multiprocessing
import os
import sys
import threading
import tracemalloc
import warnings

import dask
import numpy as np
from hypothesis import strategies as st

from checks import pipelines, targets
from lib import gen
from lib.core import Sub, call, require

QUICK = 5          # calls before, and between two looks
LOOKS = 3


class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks",
                                               "uordblks", "fordblks", "keepcost")]


LIBC = ctypes.CDLL(None)
LIBC.mallinfo2.restype = Mallinfo


def dask_caches():
    """dask remembers the names of up to 100000 keys."""
    found = []
    for name, module in list(sys.modules.items()):
        if name.split(".")[0] == "dask":
            found += [v for v in vars(module).values() if isinstance(v, functools._lru_cache_wrapper)]
    return found


def in_use():
    """Bytes held by Python objects and arrays, bytes taken from malloc by anything, threads, files, processes."""
    for cached in dask_caches():
        cached.cache_clear()
    gc.collect()
    info = LIBC.mallinfo2()
    return np.array([tracemalloc.get_traced_memory()[0], info.uordblks + info.hblkhd, threading.active_count(),
                     len(os.listdir("/proc/self/fd")), len(multiprocessing.active_children())])


def geo(num, rows, cols, step, dtype):
    return [a.astype(dtype) for a in targets.swath(num, rows, cols, step)]


class Life:
    """make(k): another set of arrays of the same sizes; use(arrays, k): the whole life of an interpolator or result."""

    def __init__(self, case):
        self.case = case
        self.name, self.opt, self.dtype = case["t"], case["opt"], np.dtype(case["dtype"])
        self.n = 60 + case["size"]

    def make(self, num):
        name, n = self.name, self.n
        if name in pipelines.CVIIRS:
            five = "5km_to" in name
            rows, cols = (8, 271) if five else (10, 1354)
            lon, lat = geo(num, rows, cols, (0.045, 0.06) if five else (0.009, 0.012), self.dtype)
            arrays = [lon, lat, pipelines.zenith(rows, cols, "scan", num).astype(self.dtype)]
            return targets.boxed(arrays, self.opt, 2 if five else 10)
        if name in pipelines.SIMPLE:
            return targets.boxed(geo(num, 10, 1354, (0.009, 0.012), self.dtype), self.opt, 10)
        if name == "modis5kmto1km" or name == "generic_modis5kmto1km":
            return geo(num, 40, 271, (0.045, 0.06), self.dtype)
        if name == "metop20kmto1km":
            return geo(num, 2 * n, 105, (0.01, 0.2), self.dtype)
        if name in pipelines.LEGACY:
            return geo(num, 10 * (self.opt % 3 + 1), 1354, (0.009, 0.012), self.dtype)
        if name.startswith("vii"):
            # lazy ones take too long
            return targets.boxed(geo(num, 4 * (n // 4), n, (0.1, 0.2), self.dtype), 3, 4)
        return geo(num, n, n, (0.05, 0.05), self.dtype)

    def object(self, arrays):
        from geotiepoints import basic_interpolator, geointerpolator, interpolator, multilinear
        name, points = self.name, (np.arange(self.n) * 2.0, np.arange(self.n) * 3.0)
        if name in ("Interpolator", "GeoInterpolator"):
            klass = getattr(geointerpolator if name[0] == "G" else interpolator, name)
            rows = points[0] if self.opt % 3 == 0 else np.arange(2 * self.n + 2) - 2.0
            return call(klass, arrays, points, (rows, np.arange(2 * self.n + 2) * 1.5 - 1.5), 1, 3)
        if name == "Basic":
            points = [p.astype(int) for p in points]
            return call(basic_interpolator.BasicSatelliteInterpolator, points[1], points[0], arrays[1], arrays[0])
        if name == "Multilinear":
            dims = self.opt % 4 + 1
            nodes = int((self.n * self.n) ** (1 / dims) + 1e-9)
            values = np.stack([a.ravel()[:nodes ** dims] for a in arrays])
            return call(multilinear.MultilinearInterpolator, [0] * dims, [1] * dims, [nodes] * dims,
                        values, dtype=self.dtype.type)
        klass = getattr(geointerpolator if name.startswith("Geo") else interpolator, name)
        return call(klass, points, *(arrays[:1] if name.startswith("Single") else arrays))

    def ask(self, obj, num):
        """A query of its own each time."""
        name = self.name
        if name in ("Interpolator", "GeoInterpolator"):
            if num % 2 and self.case["how"] != "one object":
                call(obj.fill_borders, *(["x"] if self.opt % 3 == 0 else ["y", "x"]))
            return call(obj.interpolate)
        if name == "Basic":
            return call(obj.interpolate)
        if name == "Multilinear":
            if num % 3 == 0:
                call(obj.grid.sum)
            return [call(obj, np.random.default_rng(num).random((self.opt % 4 + 1, 3000)).astype(self.dtype))]
        fine = (np.linspace(0, 2 * self.n - 2, 70 + self.n) * (1 - num / 1e4),
                np.linspace(0, 3 * self.n - 3, 80 + self.n) * (1 - num / 1e4))
        chunks = [None, None, 50, (40, 200)][self.opt % 4]
        kwargs = {} if chunks is None else {"chunks": chunks}
        res = call(obj.interpolate, fine, **kwargs)
        return [res] if name.startswith("Single") else list(res)

    def function(self):
        from geotiepoints import geointerpolator, interpolator, viiinterpolator
        name = self.name
        if name in pipelines.CVIIRS:
            return pipelines.cviirs_func(name)
        if name in pipelines.SIMPLE:
            return pipelines.simple_func(name)
        if name in pipelines.LEGACY:
            func = pipelines.legacy_func(name)
            if name.startswith("modis1km") and self.opt % 3:
                func = functools.partial(func, cores=2 + self.opt % 2)
            return func
        if name == "vii_data":
            return lambda *arrays: viiinterpolator.tie_points_interpolation(list(arrays), 4, 3)
        if name == "vii_geo":
            return lambda *arrays: viiinterpolator.tie_points_geo_interpolation(*arrays, 4, 3)
        return {"generic_modis5kmto1km": interpolator.generic_modis5kmto1km, "lonlat2xyz": geointerpolator.lonlat2xyz,
                "xyz2lonlat": lambda lon, lat: geointerpolator.xyz2lonlat(lon, lat, lon)}[name]

    def use(self, num):
        arrays = self.make(num)
        how = self.case["how"]
        if self.name in OBJECTS:
            obj = self.object(arrays)
            if how == "refused":
                self.refuse(obj.interpolate, (np.arange(5.0) + 1e6,) * 2)
                self.refuse(obj.interpolate, "nonsense", nonsense=arrays[0])
                self.refuse(lambda: self.object([a[:-1, :2] for a in arrays]))
                self.refuse(lambda: self.ask(self.object([arrays[0], arrays[1][:, :-1]]), num))
                return
            res = self.ask(obj, num)
        elif how == "refused":
            self.refuse(self.function(), *[a[:-1] for a in arrays])
            self.refuse(self.function(), arrays[0], arrays[1][:, :-1], *arrays[2:])
            self.refuse(self.function(), *[a[:, :-5] for a in arrays])
            self.refuse(self.function(), *arrays, *arrays, *arrays)
            self.refuse(self.function(), arrays[0], *[a.astype(object) for a in arrays[1:]])
            return
        else:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res = call(self.function(), *arrays)
        if how != "dropped":
            targets.values(list(res))

    def refuse(self, func, *args, **kwargs):
        """Calls that (mostly) raise an error."""
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                targets.values(list(func(*args, **kwargs)))
            except Exception:  # any error will do
                pass

    def nbytes(self):
        return min(a.nbytes for a in self.make(0))


OBJECTS = sorted(n for n, t in targets.TARGETS.items() if t in (targets.Legs, targets.GeoLegs, targets.Grids,
                                                                 targets.Multilinear, targets.Basic))
# some more often
NAMES = sorted(targets.TARGETS) + ["Multilinear"] * 4 + ["Interpolator", "GeoInterpolator"] * 2 + ["modis1kmto500m"] * 2


@st.composite
def cases(draw):
    case = {"t": draw(st.sampled_from(NAMES)), "dtype": draw(gen.dtypes), "opt": draw(st.integers(0, 29)),
            "size": draw(st.integers(0, 12)), "start": draw(st.integers(0, 1000)),
            "how": draw(st.sampled_from(["used", "used", "dropped", "refused"])),
            "scheduler": draw(st.sampled_from(["synchronous", "synchronous", "threads"]))}
    if case["t"] in OBJECTS:
        case["how"] = draw(st.sampled_from(["used", "one object", "one object", "dropped", "refused"]))
    return case


def check(case, rec):
    life = Life(case)
    obj = [life.object(life.make(case["start"]))] if case["how"] == "one object" else None

    def step(num):
        if obj:
            targets.values(list(life.ask(obj[0], num)))
        else:
            life.use(num)

    numbers = iter(range(case["start"] + 1, 10**9))

    def growth(windows, length):
        """What every one of some windows of calls leaves, per call (a cache of a few results fills up)."""
        looks = []
        for _ in range(windows):
            for _ in range(length):
                step(next(numbers))
            looks.append(in_use())
        return np.diff(looks, axis=0).min(axis=0) / length

    size = life.nbytes()
    limits = np.array([0.3 * size + 8000, 0.3 * size + 8000, 1, 1, 1])
    tracemalloc.start()
    try:
        with dask.config.set(scheduler=case["scheduler"]):
            left = growth(LOOKS, QUICK)
            rec.notes["bytes kept / bytes of an array"] = float(left[0] / size)
            rec.notes["malloc kept / bytes of an array"] = float(left[1] / size)
            if not np.all(left < limits):
                rec.notes["looked at twice"] = 1.0
                growth(2, 80)      # fills any cache of a fixed size
                left = growth(4, 20)
    finally:
        tracemalloc.stop()
    what = "%s (%s): each call leaves " % (case["t"], case["how"])
    require(left[0] < limits[0], what + "%d bytes (an array of tie points has %d)" % (left[0], size))
    require(left[1] < limits[1], what + "%d bytes of malloc (an array of tie points has %d)" % (left[1], size))
    for value, thing in zip(left[2:], ("a thread", "an open file", "a process")):
        require(value < 1, what + thing)
    rec.label(case["t"], case["how"], case["dtype"], case["scheduler"])
    rec.mark(True)


SUBCHECKS = [
    Sub("memory", cases(), check, quick=560, thorough=8000, rule="every case counts"),
]
SETTINGS = {"technique": "property-based testing (Hypothesis): memory, threads, files and processes in use over histories of calls"}
