"""Shared vocabulary of the checks: violations, case records, comparisons."""
import hashlib
import json
import traceback

import numpy as np


class Violation(Exception):
    """The property does not hold for the case at hand."""


class Invalid(Exception):
    """The drawn case is outside the property's domain (counted, never a verdict)."""


class Rec:
    """What a check reports about one case."""

    __slots__ = ("labels", "nontrivial", "notes")

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self.notes = {}

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def mark(self, cond=True):
        """State that the case is non-trivial (by the rule of the sub-check)."""
        if cond:
            self.nontrivial = True


class Sub:
    """One sub-check of a property: a strategy, a check and how many cases to run."""

    def __init__(self, name, strategy, check, quick, thorough=None, rule="", env=None, share=1.0):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.share = share


def case_key(sub, case):
    return hashlib.sha1((sub + json.dumps(case, sort_keys=True)).encode()).hexdigest()


def from_sut(exc, scratch):
    """Was the exception raised while code of the tested package was running?"""
    for frame in traceback.extract_tb(exc.__traceback__):
        if frame.filename.startswith(scratch) or "/geotiepoints/" in frame.filename \
                or frame.filename.startswith("geotiepoints/"):
            return True
    return False


def call(func, *args, **kwargs):
    """Call the tested code on valid input: an exception is a violation."""
    try:
        return func(*args, **kwargs)
    except Exception as err:  # noqa
        raise Violation("%s raised %s: %s" % (getattr(func, "__name__", func), type(err).__name__,
                                              str(err)[:300])) from err


def must_raise(func, *args, **kwargs):
    """Call the tested code on malformed input: it has to raise an ordinary exception."""
    try:
        res = func(*args, **kwargs)
    except Exception:
        return
    raise Violation("%s accepted malformed input and returned %s"
                    % (getattr(func, "__name__", func), describe(res)))


def describe(val):
    if isinstance(val, (tuple, list)):
        return "(" + ", ".join(describe(v) for v in val[:4]) + ")"
    if hasattr(val, "shape"):
        return "%s%s" % (type(val).__name__, tuple(val.shape))
    return type(val).__name__


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def as_np(val, what="result"):
    try:
        arr = np.asarray(val)
    except Exception as err:  # noqa
        raise Violation("%s is not an array: %s" % (what, err)) from err
    if arr.dtype == object:
        raise Violation("%s is not a numeric array (%s)" % (what, type(val).__name__))
    return arr


def check_shape(arr, shape, what):
    require(tuple(arr.shape) == tuple(shape), "%s has shape %s, expected %s" % (what, tuple(arr.shape), tuple(shape)))


def check_close(actual, expected, tol, what):
    """|actual - expected| <= tol elementwise (tol scalar or array); NaN is never close to a number."""
    actual = as_np(actual, what)
    expected = np.asarray(expected)
    check_shape(actual, expected.shape, what)
    with np.errstate(all="ignore"):
        diff = np.abs(actual.astype(np.longdouble) - expected)
        bad = ~(diff <= tol)
        both_nan = np.isnan(actual) & np.isnan(expected)
        same_inf = np.isinf(actual) & (actual == expected)
    bad &= ~both_nan & ~same_inf
    if bad.any():
        idx = np.unravel_index(np.argmax(np.where(bad, np.where(np.isnan(diff), np.inf, diff), -1)), bad.shape)
        raise Violation("%s: %d of %d elements differ; at %s got %r, expected %r (tolerance %.3g)"
                        % (what, bad.sum(), bad.size, tuple(int(i) for i in idx), float(actual[idx]),
                           float(expected[idx]), float(np.broadcast_to(tol, bad.shape)[idx])))
    return float(np.nanmax(np.where(np.isnan(diff), 0, diff))) if diff.size else 0.0


def check_equal(actual, expected, what):
    """Bitwise equal values (NaN equal to NaN)."""
    actual = as_np(actual, what)
    expected = np.asarray(expected)
    check_shape(actual, expected.shape, what)
    bad = ~((actual == expected) | (np.isnan(actual) & np.isnan(expected)))
    if bad.any():
        idx = np.unravel_index(np.argmax(bad), bad.shape)
        raise Violation("%s: %d of %d elements differ; at %s got %r, expected %r"
                        % (what, bad.sum(), bad.size, tuple(int(i) for i in idx),
                           float(actual[idx]), float(expected[idx])))


R_EARTH = 6370997.0


def unit(lon, lat):
    lon = np.deg2rad(np.asarray(lon, dtype=np.float64))
    lat = np.deg2rad(np.asarray(lat, dtype=np.float64))
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], axis=-1)


def to_lonlat(vec):
    """Longitude and latitude (degrees) of direction vectors."""
    vec = np.asarray(vec, dtype=np.float64)
    lon = np.rad2deg(np.arctan2(vec[..., 1], vec[..., 0]))
    lat = np.rad2deg(np.arctan2(vec[..., 2], np.hypot(vec[..., 0], vec[..., 1])))
    return lon, lat


def wrap180(lon):
    """Wrap to [-180, 180) without disturbing values that already are in [-180, 180]."""
    lon = np.asarray(lon)
    out = (lon + 180.0) % 360.0 - 180.0
    return np.where((lon >= -180) & (lon <= 180), lon, out)


def check_lonlat_range(lon, lat, what):
    lon, lat = as_np(lon, what + " longitude"), as_np(lat, what + " latitude")
    slack = 1 + 4 * float(np.finfo(lon.dtype).eps) if lon.dtype.kind == "f" else 1
    for arr, lim, name in ((lon, 180.0, "longitude"), (lat, 90.0, "latitude")):
        with np.errstate(all="ignore"):
            bad = ~(np.abs(arr) <= lim * slack)
        if bad.any():
            idx = np.unravel_index(np.argmax(bad), bad.shape)
            raise Violation("%s: %s %r at %s is not within +-%g (%d elements)"
                            % (what, name, float(arr[idx]), tuple(int(i) for i in idx), lim, bad.sum()))


def distance(lon1, lat1, lon2, lat2, radius=R_EARTH):
    """Chord between two places in metres."""
    d = unit(lon1, lat1) - unit(lon2, lat2)
    return radius * np.sqrt((d ** 2).sum(axis=-1))


def check_places(lon, lat, elon, elat, tol, what, rng=True):
    """Same places on Earth within tol metres (scalar or array); result within the lon/lat ranges."""
    lon, lat = as_np(lon, what + " longitude"), as_np(lat, what + " latitude")
    check_shape(lon, np.shape(elon), what + " longitude")
    check_shape(lat, np.shape(elat), what + " latitude")
    if rng:
        check_lonlat_range(lon, lat, what)
    dist = distance(lon, lat, elon, elat)
    bad = ~(dist <= tol)
    if bad.any():
        idx = np.unravel_index(np.argmax(np.where(bad, np.where(np.isnan(dist), np.inf, dist), -1)), bad.shape)
        raise Violation("%s: %d of %d places differ; at %s got (%r, %r), expected (%r, %r): %.4g m (tolerance %.3g)"
                        % (what, bad.sum(), bad.size, tuple(int(i) for i in idx), float(lon[idx]), float(lat[idx]),
                           float(np.asarray(elon)[idx]), float(np.asarray(elat)[idx]), float(dist[idx]),
                           float(np.broadcast_to(tol, bad.shape)[idx])))
    return float(dist.max()) if dist.size else 0.0
