"""Every public entry point as a target that can be called again and again, alone or together with others.

A specification is {"t": name, "data": 0.., "size": 0.., "dtype": ..., "opt": 0..}; make(spec) gives a target with
  inputs          what is handed to the package (arrays, lists, labelled arrays)
  start()         creates the interpolator object, or None
  change(obj, c)  border filling / new values (number c), for the targets with changes
  call(obj, q)    the query number q; returns what the package returned
"""
import copy
import warnings

import numpy as np

from checks import pipelines
from lib import gen

QUERIES = 4


def swath(num, rows, cols, step):
    place = [(0.0, 10.0), (179.9, -40.0), (30.0, 88.0), (-100.0, 60.0)][num % 4]
    par = {"lon0": place[0], "lat0": place[1], "sr": step[0], "sc": step[1], "bend": 0.2, "ar": 0.4, "ac": 0.5,
           "kind": "tangent", "az": (8, 172, 90, -172)[num % 4], "noise": 0.1, "seed": num}
    return gen.make_swath(par, rows, cols)


def boxed(arrays, opt, per, dims=("y", "x")):
    """The arrays in a container: plain, other layout, lazy, labelled, labelled and lazy."""
    import dask.array as da
    import xarray as xr
    kind = opt % 5
    if kind == 1:
        return [gen.layout(a, "F") for a in arrays]
    if kind == 2:
        return [da.from_array(a, chunks=(per, -1)) for a in arrays]
    if kind == 3:
        return [xr.DataArray(a, dims=dims, attrs={"units": "degrees"}) for a in arrays]
    if kind == 4:
        return [xr.DataArray(da.from_array(a, chunks=(2 * per, 20)), dims=dims) for a in arrays]
    if (opt // 15) % 2:
        return [gen.layout(a, "readonly") for a in arrays]
    return list(arrays)


class Target:
    """A function of its inputs."""

    shareable = True     # several threads may use one object
    changes = 0
    func = None

    def __init__(self, spec):
        self.spec = spec
        self.dtype = np.dtype(spec["dtype"])
        self.inputs = []
        self.setup(spec["data"], spec["size"], spec["opt"])

    def setup(self, data, size, opt):
        raise NotImplementedError

    def start(self):
        return None

    def change(self, obj, num):
        raise NotImplementedError

    def call(self, obj, query):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return self.func(*self.inputs)

    def fail(self, obj, num):
        """A call that cannot be answered (some give something or other): is it refused?"""
        arrays = [a for a in self.inputs if getattr(a, "ndim", 0) == 2]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                if obj is not None:
                    self.fail_object(obj, num)
                    return False
                bad = [[a[:-1] for a in arrays], [a[:, :-1] for a in arrays], [arrays[0][:-1]] + arrays[1:],
                       [a[0] for a in arrays], arrays[:1], [None] * len(arrays), [a[:-5] for a in arrays]][num % 7]
                values(self.func(*bad, *self.inputs[len(arrays):]))
                return False
            except Exception:
                return True

    def fail_object(self, obj, num):
        pass


class Cviirs(Target):
    def setup(self, data, size, opt):
        name = self.spec["t"]
        self.func = pipelines.cviirs_func(name)
        five = "5km_to" in name
        per = 2 if five else 10
        rows, cols = per * (1 + size), (271 - (opt // 5) % 2 if five else 1354)
        lon, lat = swath(data, rows, cols, (0.045, 0.06) if five else (0.009, 0.012))
        satz = pipelines.zenith(rows, cols, ["scan", "bumps", "zero", "ramp"][data % 4], data)
        self.inputs = boxed([a.astype(self.dtype) for a in (lon, lat, satz)], opt, per)


class Simple(Target):
    def setup(self, data, size, opt):
        self.func = pipelines.simple_func(self.spec["t"])
        rows, cols = 10 * (1 + size), [40, 135, 1354][(opt // 5) % 3]
        lon, lat = swath(data, rows, cols, (0.009, 0.012))
        self.inputs = boxed([a.astype(self.dtype) for a in (lon, lat)], opt, 10)


class Legacy(Target):
    def setup(self, data, size, opt):
        name = self.spec["t"]
        self.func = pipelines.legacy_func(name)
        if name == "metop20kmto1km":
            lon, lat = swath(data, 1 + 2 * size, 105, (0.01, 0.2))
        elif name == "modis5kmto1km":
            lon, lat = swath(data, 2 + 2 * size, 271, (0.045, 0.06))
        else:
            lon, lat = swath(data, 10, 1354, (0.009, 0.012))
        self.inputs = [gen.layout(a.astype(self.dtype), ["C", "F", "readonly"][opt % 3]) for a in (lon, lat)]


class Generic(Target):
    def setup(self, data, size, opt):
        from geotiepoints.interpolator import generic_modis5kmto1km
        self.func = generic_modis5kmto1km
        lon, lat = swath(data, 2 + 2 * size, 271, (0.045, 0.06))
        self.inputs = [gen.layout(a.astype(self.dtype), ["C", "readonly"][(opt // 3) % 2])
                       for a in (lon, lat, lon * lat)][:1 + opt % 3]


class ViiData(Target):
    geo = False

    def setup(self, data, size, opt):
        from geotiepoints import viiinterpolator as vii
        self.per, self.factor = 2 + opt % 2, [8, 3, 1][(opt // 2) % 3]
        rows, cols = self.per * (1 + size), 4
        lon, lat = swath(data, rows, cols, (0.5, 1.0))
        self.inputs = boxed([a.astype(self.dtype) for a in (lon, lat)], [0, 3, 4][opt % 3] or 3, self.per)
        self.func = vii.tie_points_geo_interpolation if self.geo else vii.tie_points_interpolation

    def call(self, obj, query):
        if self.geo:
            return self.func(self.inputs[0], self.inputs[1], self.per, self.factor)
        return self.func(self.inputs, self.per, self.factor)

    def fail(self, obj, num):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if self.geo:
                    self.func(self.inputs[0], self.inputs[1], self.per + 11, self.factor)
                else:
                    self.func(self.inputs, self.per + 11, self.factor)
            return False
        except Exception:
            return True


class ViiGeo(ViiData):
    geo = True


class Legs(Target):
    """Interpolator and GeoInterpolator objects with border filling."""

    shareable = False
    changes = 3
    geo = False

    def setup(self, data, size, opt):
        n, m = 4 + size, 5 + size
        self.chunk = [0, 4, 0][opt % 3]
        if self.chunk:      # two chunks of four fine rows, two or more tie rows each
            rows = np.array([0.5, 2.5, 4.5, 6.5])
            frows = np.arange(8.0)
            n = 4
        else:
            rows, frows = np.arange(n) * 2.0 + 1, np.arange(2 * n + 1) * 1.0
        cols, fcols = np.arange(m) * 3.0 + 1, np.arange(3 * m + 1) * 1.0
        if opt % 5 == 4 and not self.chunk:
            frows = rows.copy()
        lon, lat = swath(data, n, m, (0.5, 0.5))
        arrays = [gen.layout(a.astype(self.dtype), ["C", "F", "readonly"][opt % 3]) for a in (lon, lat)]
        self.inputs = [arrays if opt % 2 else tuple(arrays), (rows, cols), (frows, fcols)]
        self.orders = (1 + opt % 3, 1 + (opt // 3) % 4)

    def start(self):
        from geotiepoints.geointerpolator import GeoInterpolator
        from geotiepoints.interpolator import Interpolator
        return (GeoInterpolator if self.geo else Interpolator)(*self.inputs, *self.orders, chunk_size=self.chunk)

    def change(self, obj, num):
        obj.fill_borders(*[("x",), ("y",), ("y", "x")][num])

    def fail_object(self, obj, num):
        obj.fill_borders(*[("z",), (), (None,)][num % 3])

    def call(self, obj, query):
        return obj.interpolate()


class GeoLegs(Legs):
    geo = True


class Grids(Target):
    """Grid and spline interpolators: the query selects points, chunks and options."""

    def setup(self, data, size, opt):
        n, m = 4 + size, 5 + size
        self.points = np.arange(n) * 2.0, np.arange(m) * 3.0
        lon, lat = swath(data, n, m, (0.5, 0.5))
        arrays = [gen.layout(a.astype(self.dtype), ["C", "F", "readonly"][opt % 3]) for a in (lon, lat, lon - lat)]
        name = self.spec["t"]
        self.single = name.startswith("Single")
        arrays = arrays[:1 if self.single else 2 if name.startswith("Geo") else 3]
        self.grid = "Grid" in name
        self.kwargs = {"method": ["linear", "nearest", "slinear"][opt % 3]} if self.grid else \
            {"kx": 1 + opt % 3, "ky": 1 + (opt // 3) % 3}
        top = self.points[0][-1], self.points[1][-1]
        self.fine = [
            (np.linspace(0, top[0], 9), np.linspace(0, top[1], 10)),
            (np.linspace(0.5, top[0] - 1, 9), np.linspace(0.25, top[1], 10)),
            (np.array([1.0]), np.linspace(0.25, top[1], 10)),
            (np.arange(5.0), np.arange(10.0)),
        ]
        self.more = [{}, {"chunks": 4}, {}, {"chunks": (3, 10)}]
        self.inputs = [self.points, arrays, self.fine, self.more, self.kwargs]

    def start(self):
        from geotiepoints import geointerpolator, interpolator
        name = self.spec["t"]
        klass = getattr(geointerpolator if name.startswith("Geo") else interpolator, name)
        return klass(self.points, *self.inputs[1], **self.kwargs)

    def call(self, obj, query):
        if query == 3 and not self.single:
            res = obj.interpolate_to_shape((5, 10)) if not self.spec["t"].startswith("Geo") \
                else obj.interpolate(self.fine[3])
        elif query == 3:
            res = obj.interpolate_slices((slice(0, 5), slice(0, 10)))
        else:
            res = obj.interpolate(self.fine[query], **self.more[query])
        return [res] if self.single else list(res)

    def fail_object(self, obj, num):
        far = self.points[0] + 1000.0
        if num % 3 == 0:
            obj.interpolate((far, far), **({"chunks": 2} if num % 2 else {}))
        elif num % 3 == 1:
            obj.interpolate(self.fine[0], method="no such method", dx=17)
        else:
            obj.interpolate((self.fine[0][0],))


class Multilinear(Target):
    changes = 3
    shareable = True

    def setup(self, data, size, opt):
        dims = 1 + opt % 4
        self.orders = [3 + size + k % 2 for k in range(dims)]
        self.smin, self.smax = [-1.0 - data] * dims, [2.0] * dims
        rng = np.random.default_rng(data)
        total = int(np.prod(self.orders))
        self.values = [rng.normal(size=(1 + k, total)).astype(self.dtype) for k in range(4)]
        self.queries = [rng.uniform(-1.5, 2.5, (dims, [7, 400, 1, 7][k])).astype(self.dtype) for k in range(QUERIES)]
        if (opt // 4) % 2:
            self.values, self.queries = ([gen.layout(a, "readonly") for a in arrs] for arrs in (self.values, self.queries))
        self.inputs = [self.smin, self.smax, self.orders, self.values, self.queries]

    def start(self):
        from geotiepoints.multilinear import MultilinearInterpolator
        return MultilinearInterpolator(self.smin, self.smax, self.orders, self.values[0], dtype=self.dtype.type)

    def change(self, obj, num):
        obj.set_values(self.values[num + 1])

    def call(self, obj, query):
        return [obj(self.queries[query])]

    def fail_object(self, obj, num):
        if num % 2:
            obj(np.zeros((len(self.orders) + 1, 3)))
        else:
            obj(np.zeros((0, 3)))


class Basic(Target):
    shareable = False

    def setup(self, data, size, opt):
        rows, cols = np.array([0, 2, 4, 6, 9][:3 + size]), np.array([0, 1, 4, 8, 10][:3 + opt % 3])
        if opt % 4 == 3:
            rows, cols = np.arange(3 + size), np.arange(3 + opt % 3)   # nothing between the tie points
        lon, lat = swath(data, len(rows), len(cols), (0.5, 0.5))
        if opt % 2:
            rows, cols = list(map(int, rows)), list(map(int, cols))
        self.inputs = [cols, rows] + [gen.layout(a.astype(self.dtype), ["C", "readonly"][(opt // 5) % 2])
                                      for a in (lat, lon)]

    def start(self):
        from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
        return BasicSatelliteInterpolator(*self.inputs)

    def call(self, obj, query):
        return obj.interpolate()


class Convert(Target):
    """Longitude/latitude to Cartesian coordinates and back."""

    def setup(self, data, size, opt):
        from geotiepoints import geointerpolator as gi
        lon, lat = swath(data, 3 + size, 40, (1.0, 4.0))
        shape = [(3 + size, 40), (-1,), (3 + size, 5, 8), (3 + size, 2, 4, 5)][(opt // 3) % 4]
        lon, lat = lon.reshape(shape), lat.reshape(shape)
        self.kwargs = {}
        self.inputs = [lon.astype(self.dtype), lat.astype(self.dtype)]
        self.func = gi.lonlat2xyz
        if self.spec["t"] == "xyz2lonlat":
            self.func = gi.xyz2lonlat
            self.inputs = [a.astype(self.dtype) for a in gi_xyz(lon, lat)]
            self.kwargs = [{}, {"low_lat_z": False}, {"thr": 0.3}][opt % 3]

    def call(self, obj, query):
        return self.func(*self.inputs, **self.kwargs)


def gi_xyz(lon, lat):
    from lib.models import lonlat2xyz
    return lonlat2xyz(lon, lat)


TARGETS = {}
for _name in pipelines.CVIIRS:
    TARGETS[_name] = Cviirs
for _name in pipelines.SIMPLE:
    TARGETS[_name] = Simple
for _name in pipelines.LEGACY:
    TARGETS[_name] = Legacy
TARGETS.update({"generic_modis5kmto1km": Generic, "vii_data": ViiData, "vii_geo": ViiGeo, "Interpolator": Legs,
                "GeoInterpolator": GeoLegs, "Multilinear": Multilinear, "Basic": Basic,
                "lonlat2xyz": Convert, "xyz2lonlat": Convert})
for _name in ("SingleGridInterpolator", "SingleSplineInterpolator", "MultipleGridInterpolator",
              "MultipleSplineInterpolator", "GeoGridInterpolator", "GeoSplineInterpolator"):
    TARGETS[_name] = Grids
SLOW = set(pipelines.CVIIRS) | {"modis1kmto500m", "modis1kmto250m"}


def make(spec):
    return TARGETS[spec["t"]](spec)


def values(res):
    """The returned arrays, computed, as a list (of copies)."""
    import dask
    res = res if isinstance(res, (list, tuple)) else [res]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = dask.compute(*res)
    return [np.array(r) for r in res]


def snapshot(obj):
    """A nested copy of inputs, for same()."""
    import dask.array as da
    import xarray as xr
    if isinstance(obj, (list, tuple)):
        return (type(obj), [snapshot(o) for o in obj])
    if isinstance(obj, dict):
        return (dict, copy.deepcopy(obj))
    if isinstance(obj, xr.DataArray):
        return (xr.DataArray, snapshot(obj.data), obj.dims, list(map(str, obj.coords)), dict(obj.attrs), obj.name)
    if isinstance(obj, da.Array):
        return (da.Array, obj.name, obj.chunks, np.array(obj.compute(scheduler="synchronous")))
    if isinstance(obj, np.ndarray):
        return (np.ndarray, obj.dtype, obj.shape, obj.flags.writeable, obj.tobytes())
    return (type(obj), obj)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    return a == b
