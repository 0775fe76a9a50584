"""Lazy results and interpolator objects can be used in other processes, and copied."""
import concurrent.futures
import copy
import ctypes
import multiprocessing
import pickle

import cloudpickle
import dask
import dask.array as da
import numpy as np
from hypothesis import strategies as st

from checks import c12, targets
from checks.c22 import compare
from lib import gen
from lib.core import Sub, call, require
from lib.zygote import Zygote

pool = None
zygote = None
SCANS = sorted(n for n, t in targets.TARGETS.items() if t in (targets.Cviirs, targets.Simple))
VII = ["vii_data", "vii_geo"]
OBJECTS = sorted(n for n, t in targets.TARGETS.items() if t.start is not targets.Target.start)


def with_parent():
    ctypes.CDLL(None).prctl(1, 9)       # end with the parent


def setup(args):
    global pool, zygote
    import geotiepoints  # noqa
    import geotiepoints.basic_interpolator  # noqa
    import geotiepoints.modisinterpolator  # noqa
    import geotiepoints.multilinear  # noqa
    import geotiepoints.simple_modis_interpolator  # noqa
    import geotiepoints.viiinterpolator  # noqa
    zygote = Zygote(elsewhere)
    # processes that never saw how the results were made
    pool = concurrent.futures.ProcessPoolExecutor(2, multiprocessing.get_context("fork"), with_parent)
    pool.submit(int).result()


def elsewhere(request):
    """Done in a process of its own."""
    kind = request[0]
    with dask.config.set(scheduler="synchronous"):
        if kind == "compute":
            return [np.array(v) for v in dask.compute(*pickle.loads(request[1]))]
        if kind == "lazy":
            return [np.array(v) for v in dask.compute(*lazy_group(request[1]))]
        _, data, spec, changes, query = request
        target = targets.make(spec)
        obj = pickle.loads(data) if data else target.start()
        for num in changes:
            target.change(obj, num)
        return targets.values(target.call(obj, query))


def fresh(*request):
    ok, res = zygote(request)
    require(ok, "in a process of its own: %s" % res)
    return res


# ---------------------------------------------------------------- lazy results

@st.composite
def members(draw, like=None):
    """One lazy call."""
    kind = like["kind"] if like else draw(st.sampled_from(["grid", "simple", "cviirs", "vii"]))
    if kind == "grid":
        return {"kind": kind, "spec": draw(c12.specs(*([like["spec"]] if like else [])))}
    spec = {"t": draw(st.sampled_from(VII if kind == "vii" else
                                      [n for n in SCANS if n.startswith("simple") == (kind == "simple")])),
            "data": draw(st.integers(0, 3)), "size": draw(st.integers(0, 1 if kind == "cviirs" else 2)),
            "dtype": draw(gen.dtypes), "opt": draw(st.integers(0, 29))}
    spec["opt"] = spec["opt"] // 5 * 5 + draw(st.sampled_from([2, 4])) if kind != "vii" else \
        spec["opt"] // 3 * 3 + 2
    if like:
        # the same but for one thing
        field = draw(st.sampled_from(["t", "data", "size", "dtype", "opt"]))
        spec = dict(like["spec"], **{field: spec[field]})
    return {"kind": kind, "spec": spec}


@st.composite
def lazy_cases(draw):
    group = [draw(members())]
    for _ in range(draw(st.integers(0, 2))):
        group.append(draw(members(group[0] if draw(st.booleans()) else None)))
    return {"group": group, "where": draw(st.sampled_from(["processes", "processes", "other process", "threads"])),
            "part": draw(st.booleans())}


def lazy_group(member):
    """The lazy arrays of one call."""
    if member["kind"] == "grid":
        interp, fine, opts, spec = c12.create(member["spec"])
        chunks = tuple(spec["chunks"]) if isinstance(spec["chunks"], list) else spec["chunks"]
        return c12.listed(spec, interp.interpolate(fine, chunks=chunks, **opts))
    target = targets.make(member["spec"])
    return [getattr(r, "data", r) if hasattr(r, "dims") else r for r in target.call(None, 0)]


def check_lazy(case, rec):
    lazies, refs = [], []
    for member in case["group"]:
        with dask.config.set(scheduler="synchronous"):
            group = call(lazy_group, member)
        require(all(isinstance(lz, da.Array) for lz in group), "%s: not lazy" % member)
        refs += fresh("lazy", member)
        lazies += group
        rec.label(member["spec"].get("t", member["spec"].get("family")))
    if case["part"]:
        # the last rows of some, the first columns of others
        cut = [np.s_[-3:] if num % 2 else np.s_[:, :2] for num in range(len(lazies))]
        lazies, refs = ([a[c] for a, c in zip(arrs, cut)] for arrs in (lazies, refs))
    if case["where"] == "processes":
        got = call(dask.compute, *lazies, scheduler="processes", pool=pool)
    elif case["where"] == "threads":
        got = call(dask.compute, *lazies, scheduler="threads", num_workers=3)
    else:
        got = fresh("compute", call(cloudpickle.dumps, lazies))
    compare([np.asarray(g) for g in got], refs, "%s computed by %s" % ([m["spec"] for m in case["group"]],
                                                                      case["where"]))
    rec.label(case["where"], "calls: %d" % len(case["group"]))
    rec.mark(case["where"] != "threads" or len(case["group"]) > 1)


# ---------------------------------------------------------------- objects

@st.composite
def object_cases(draw):
    spec = {"t": draw(st.sampled_from(OBJECTS)), "data": draw(st.integers(0, 3)), "size": draw(st.integers(0, 2)),
            "dtype": draw(gen.dtypes), "opt": draw(st.integers(0, 29))}
    changes = st.lists(st.integers(0, 2), max_size=2)
    return {"spec": spec, "before": draw(changes), "after": draw(changes), "used": draw(st.booleans()),
            "how": draw(st.sampled_from(["pickle", "pickle", "cloudpickle", "deepcopy"])),
            "protocol": draw(st.integers(2, pickle.HIGHEST_PROTOCOL)), "where": draw(st.sampled_from(["here", "there"])),
            "query": draw(st.integers(0, targets.QUERIES - 1)), "twice": draw(st.booleans())}


def check_object(case, rec):
    spec, how, query = case["spec"], case["how"], case["query"]
    target = targets.make(spec)
    before = [c for c in case["before"] if c < target.changes]
    after = [c for c in case["after"] if c < target.changes]
    with dask.config.set(scheduler="synchronous"):
        obj = call(target.start)
        for num in before:
            call(target.change, obj, num)
        if case["used"]:
            call(target.call, obj, (query + 1) % targets.QUERIES)
        there = case["where"] == "there" and how != "deepcopy"
        dump = {"pickle": lambda o: pickle.dumps(o, case["protocol"]), "cloudpickle": cloudpickle.dumps}.get(how)
        what = "%s, changes %s and %s, %s, used %s" % (spec, before, after, how, there and "elsewhere" or "here")
        twin = call(copy.deepcopy, obj) if how == "deepcopy" else None if there else pickle.loads(call(dump, obj))
        if there:
            res = fresh("object", call(dump, obj), spec, after, query)
        else:
            if case["twice"] and how != "deepcopy":
                twin = pickle.loads(call(dump, twin))
            for num in after:
                call(target.change, twin, num)
            res = targets.values(call(target.call, twin, query))
        compare(res, fresh("object", None, spec, before + after, query), what)
        # the original is what it was
        compare(targets.values(call(target.call, obj, query)), fresh("object", None, spec, before, query),
                what + ": the original afterwards")
    rec.label(spec["t"], how, "elsewhere" if there else "here", "changed" if before else "unchanged",
              "changed afterwards" if after else "unchanged afterwards")
    rec.mark()


SUBCHECKS = [
    Sub("lazy", lazy_cases(), check_lazy, quick=600, thorough=12000, share=2.0,
        rule="evaluated in other processes, or several calls at once by threads"),
    Sub("objects", object_cases(), check_object, quick=900, thorough=20000, rule="every case"),
]
SETTINGS = {"technique": "differential property-based testing (Hypothesis): lazy results and interpolators evaluated in "
                         "other processes, or after copying, against processes that made them alone"}
