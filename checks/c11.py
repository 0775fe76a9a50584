"""Chunked lazy interpolation equals direct interpolation."""
import dask
import dask.array as da
import numpy as np
from geotiepoints import geointerpolator, interpolator
from hypothesis import strategies as st

from checks import c10
from lib import gen
from lib.core import Sub, as_np, call, check_close, check_places, check_shape, must_raise, require


@st.composite
def splits(draw, total):
    out, left = [], total
    while left > 0 and len(out) < 6:
        size = draw(st.integers(1, left))
        out.append(size)
        left -= size
    if left:
        out.append(left)
    return out


@st.composite
def chunk_specs(draw, shape):
    """A chunk specification and the layout it stands for (None: whatever dask makes of it)."""
    kind = draw(st.sampled_from(["int", "pair", "explicit", "explicit", "whole", "auto", "mixed", "bytes"]))

    def regular(size, total):
        out = [size] * (total // size)
        if total % size:
            out.append(total % size)
        return out

    if kind == "int":
        size = draw(st.integers(1, max(shape) + 2))
        return size, [regular(min(size, n), n) for n in shape]
    if kind == "pair":
        sizes = [draw(st.integers(1, n)) for n in shape]
        return sizes, [regular(s, n) for s, n in zip(sizes, shape)]
    if kind == "explicit":
        lists = [draw(splits(n)) for n in shape]
        return lists, lists
    if kind == "whole":
        return -1, [[n] for n in shape]
    if kind == "mixed":
        size = draw(st.integers(1, shape[1]))
        return [-1, size], [[shape[0]], regular(size, shape[1])]
    if kind == "bytes":
        return draw(st.sampled_from(["100B", "256B", "1kB"])), None
    if draw(st.booleans()):
        return draw(st.sampled_from(["auto", ["auto", -1], [2, "auto"]])), None
    return "auto", [[n] for n in shape]


def to_spec(spec):
    if isinstance(spec, list):
        return tuple(tuple(s) if isinstance(s, list) else s for s in spec)
    return spec


@st.composite
def cases(draw, geo=False):
    conf = draw(c10.configs(geo=geo))
    shape = [len(conf["frows"]), len(conf["fcols"])]
    spec, layout = draw(chunk_specs(shape))
    part = [sorted(draw(st.tuples(st.integers(0, n), st.integers(0, n)))) for n in shape]
    return {"conf": conf, "chunks": spec, "layout": layout, "n": draw(st.integers(1, 3)), "part": part,
            "seed": draw(gen.seeds), "dtype": draw(gen.dtypes),
            "klass": "geo" if geo else draw(st.sampled_from(["single", "multiple"])),
            "to_shape": draw(st.integers(0, 4)) == 0,
            # what automatic chunks may hold; large enough for one where one is expected
            "limit": draw(st.sampled_from(["64B", "200B", "1kB"])) if layout is None else "64MiB",
            "swath": draw(gen.swaths(step=(1.0, 1.0), noise=False)) if geo else None}


def make(case):
    conf = case["conf"]
    rows, cols, frows, fcols = c10.arrays_of(conf)
    init, at_call = c10.options(conf)
    dtype = np.dtype(case["dtype"])
    scheme = "Grid" if conf["scheme"] == "grid" else "Spline"
    if case["klass"] == "geo":
        lon, lat = gen.make_swath(case["swath"], len(rows), len(cols))
        arrays = [lon.astype(dtype), lat.astype(dtype)]
        klass = getattr(geointerpolator, "Geo%sInterpolator" % scheme)
    else:
        rng = np.random.default_rng(case["seed"])
        n = 1 if case["klass"] == "single" else case["n"]
        arrays = [rng.normal(size=(len(rows), len(cols))).astype(dtype) for _ in range(n)]
        klass = getattr(interpolator, ("Single" if case["klass"] == "single" else "Multiple") + scheme + "Interpolator")
    interp = call(klass, (rows, cols), *arrays, **init)
    return interp, (frows, fcols), at_call, len(arrays)


def results(case, interp, fine, **kwargs):
    res = call(interp.interpolate, fine, **kwargs)
    return [res] if case["klass"] == "single" else call(list, res)


def check(case, rec):
    with dask.config.set({"array.chunk-size": case.get("limit", "64MiB")}):
        check_one(case, rec)


def check_one(case, rec):
    conf = case["conf"]
    if case["to_shape"] and case["klass"] != "single":
        # positions 0, 1, 2... instead (inside the tie grid or filled)
        rows, cols = np.arange(len(conf["rows"])) * 3, np.arange(len(conf["cols"])) * 2
        shape = [min(len(conf["frows"]), int(rows[-1]) + 1), min(len(conf["fcols"]), int(cols[-1]) + 1)]
        conf = dict(conf, rows=[float(v) for v in rows], cols=[float(v) for v in cols],
                    frows=[float(v) for v in range(shape[0])], fcols=[float(v) for v in range(shape[1])])
        chunks = case["chunks"]
        if isinstance(chunks, list) and isinstance(chunks[0], list):
            chunks = 2
        case = dict(case, conf=conf, chunks=chunks, layout=None, part=[[0, n] for n in shape])
        interp, fine, at_call, count = make(case)
        lazies = call(lambda: list(interp.interpolate_to_shape(shape, chunks=to_spec(chunks), **at_call)))
        rec.label("to shape")
    else:
        interp, fine, at_call, count = make(case)
        lazies = results(case, interp, fine, chunks=to_spec(case["chunks"]), **at_call)
    direct = results(case, interp, fine, **at_call)
    shape = (len(fine[0]), len(fine[1]))
    require(len(lazies) == len(direct), "%d lazy results, %d direct ones" % (len(lazies), len(direct)))
    dtype = np.dtype(case["dtype"])
    (r0, r1), (c0, c1) = case["part"]
    with dask.config.set(scheduler="synchronous"):
        for num, (lazy, ref) in enumerate(zip(lazies, direct)):
            ref = as_np(ref)
            require(isinstance(lazy, da.Array), "result %d is not lazy but %s" % (num, type(lazy).__name__))
            require(lazy.shape == shape, "announced shape %s, expected %s" % (lazy.shape, shape))
            if case["layout"] is not None:
                want = tuple(tuple(c) for c in case["layout"])
                require(lazy.chunks == want, "announced chunks %s, asked for %s" % (lazy.chunks, want))
            eps = 1e-11 if ref.dtype == np.float64 else 1e-6
            scale = max(1.0, float(np.nanmax(np.abs(ref))) if np.isfinite(ref).any() else 1.0)
            got = call(lazy.compute)
            check_shape(as_np(got), shape, "computed result %d" % num)
            require(got.dtype == lazy.dtype, "announced dtype %s, computed %s" % (lazy.dtype, got.dtype))
            require(got.dtype == ref.dtype, "lazy dtype %s, direct %s" % (got.dtype, ref.dtype))
            compare(case, got, ref, eps * scale, "lazy result %d" % num)
            compare(case, call(lazy[r0:r1, c0:c1].compute), ref[r0:r1, c0:c1], eps * scale, "part of result %d" % num)
            # every block has the announced size and holds its part of the values
            k = case["seed"] % (len(lazy.chunks[0]) * len(lazy.chunks[1]))
            i, j = divmod(k, len(lazy.chunks[1]))
            a, b = sum(lazy.chunks[0][:i]), sum(lazy.chunks[1][:j])
            size = lazy.chunks[0][i], lazy.chunks[1][j]
            block = call(lazy.blocks[i, j].compute)
            check_shape(as_np(block), size, "block %s" % ((i, j),))
            compare(case, block, ref[a:a + size[0], b:b + size[1]], eps * scale, "block %s" % ((i, j),))
    blocks = len(lazies[0].chunks[0]) * len(lazies[0].chunks[1])
    rec.label("several chunks" if blocks > 1 else "one chunk", conf["scheme"], case["klass"], case["dtype"],
              "spec " + (type(case["chunks"]).__name__))
    rec.mark(blocks > 1 and list(fine[0]) != list(range(shape[0])))


def compare(case, got, ref, tol, what):
    if case["klass"] == "geo":
        # a longitude on the antimeridian may come out with either sign
        diff = np.abs(as_np(got).astype(float) - ref)
        got = np.where(np.abs(diff - 360) < 1e-4, ref, got)
    check_close(got, ref, tol, what)


@st.composite
def outside_cases(draw):
    case = draw(c10.outside_cases())
    shape = [len(case["conf"]["frows"]), len(case["conf"]["fcols"])]
    case["chunks"] = draw(chunk_specs(shape))[0]
    return case


def check_outside(case, rec):
    """Positions outside the tie grid raise, at the latest when computed."""
    conf = case["conf"]
    rows, cols, frows, fcols = (np.asarray(a, float) for a in c10.arrays_of(conf))
    frows, fcols = np.clip(frows, rows[0], rows[-1]), np.clip(fcols, cols[0], cols[-1])
    tie, fine = (rows, frows) if case["axis"] == "rows" else (cols, fcols)
    fine[case["index"] % len(fine)] = tie[0] - case["by"] if case["where"] == "low" else tie[-1] + case["by"]
    init, at_call = c10.options(conf)
    data = np.random.default_rng(case["seed"]).uniform(-50, 50, size=(len(rows), len(cols)))
    klass = interpolator.SingleGridInterpolator
    interp = call(klass, (rows, cols), data, **init)
    with dask.config.set(scheduler="synchronous"):
        must_raise(lambda: interp.interpolate((frows, fcols), chunks=to_spec(case["chunks"]), **at_call).compute())
    rec.label(case["axis"], case["where"])
    rec.mark()


@st.composite
def large_cases(draw):
    size = st.sampled_from([1, 40, 257, 300, 700, 1500])
    shape = [draw(size), draw(size)]
    if draw(st.integers(0, 7)) == 0:
        shape[draw(st.integers(0, 1))] = draw(st.sampled_from([40000, 70000]))
        shape = [n if n > 2000 else min(n, 4) for n in shape]
    case = {"shape": shape, "seed": draw(gen.seeds), "scheme": draw(st.sampled_from(["Grid", "Grid", "Spline"])),
            "order": draw(st.sampled_from(["up", "down", "mixed"])), "dtype": draw(gen.dtypes),
            "geo": draw(st.booleans())}
    spec, layout = draw(chunk_specs(shape))
    if not isinstance(spec, list):
        # hundreds of blocks at most
        spec, layout = [max(1, shape[0] // draw(st.integers(1, 19))), max(1, shape[1] // draw(st.integers(1, 19)))], None
    elif layout is None or not isinstance(spec[0], list):
        spec, layout = [max(s, n // 20, 1) if isinstance(s, int) and s > 0 else n for s, n in zip(spec, shape)], None
    case.update(chunks=spec, limit="64MiB", part=[sorted(draw(st.tuples(st.integers(0, n), st.integers(0, n))))
                                                  for n in shape])
    return case


def check_large(case, rec):
    """Hundreds of fine rows and columns, in up to hundreds of blocks."""
    rng = np.random.default_rng(case["seed"])
    ties = [np.cumsum(rng.uniform(0.5, 9, n)) for n in rng.integers(4, 9, 2)]
    fine = [np.sort(rng.uniform(t[0], t[-1], n)) for t, n in zip(ties, case["shape"])]
    if case["scheme"] == "Grid" and case["order"] != "up":
        fine = [f[::-1].copy() if case["order"] == "down" else rng.permutation(f) for f in fine]
    shape = [len(t) for t in ties]
    if case["geo"]:
        place = {"kind": "tangent", "lon0": float(rng.uniform(-180, 180)), "lat0": float(rng.uniform(-90, 90)),
                 "az": 8, "sr": 1.0, "sc": 1.0, "bend": 0.0, "ar": 0.5, "ac": 0.5}
        arrays = [a.astype(case["dtype"]) for a in gen.make_swath(place, *shape)]
    else:
        arrays = [rng.normal(size=shape).astype(case["dtype"]) for _ in range(2)]
    module, name = (geointerpolator, "Geo") if case["geo"] else (interpolator, "Multiple")
    interp = call(getattr(module, name + case["scheme"] + "Interpolator"), tuple(ties), *arrays)
    direct = [as_np(r) for r in call(lambda: list(interp.interpolate(fine)))]
    lazies = call(lambda: list(interp.interpolate(fine, chunks=to_spec(case["chunks"]))))
    (r0, r1), (c0, c1) = case["part"]
    eps = 1e-9 if case["dtype"] == "float64" else 1e-3
    with dask.config.set(scheduler="synchronous"):
        results = call(dask.compute, *lazies)
        for lazy, got, ref in zip(lazies, results, direct):
            check_shape(as_np(got), ref.shape, "computed result")
            require(lazy.shape == ref.shape and lazy.dtype == ref.dtype == got.dtype, "announced %s %s, got %s %s"
                    % (lazy.shape, lazy.dtype, got.shape, got.dtype))
            part = as_np(call(lazy[r0:r1, c0:c1].compute))
            check_shape(part, ref[r0:r1, c0:c1].shape, "part")
            if not case["geo"]:
                check_close(got, ref, eps, "lazy result")
                check_close(part, ref[r0:r1, c0:c1], eps, "part of the result")
        if case["geo"]:
            check_places(*results, *direct, 1e-3 if case["dtype"] == "float64" else 10.0, "lazy result")
    rec.label(case["scheme"], "geographic" if case["geo"] else "plain",
              "more than 32768 rows or columns" if max(case["shape"]) > 32768 else "fewer rows and columns",
              "blocks > 100" if lazies[0].npartitions > 100 else "fewer blocks")
    rec.mark(lazies[0].npartitions > 1)


RULE = "more than one chunk, and fine rows other than 0, 1, 2..."
SUBCHECKS = [
    Sub("plain", cases(), check, quick=3000, thorough=40000, rule=RULE),
    Sub("geographic", cases(geo=True), check, quick=1200, thorough=15000, rule=RULE),
    Sub("large", large_cases(), check_large, quick=240, thorough=3000, rule="more than one chunk"),
    Sub("outside", outside_cases(), check_outside, quick=480, thorough=4000, rule="every case"),
]
SETTINGS = {"technique": "differential property-based testing (Hypothesis): lazy and chunked against direct"}
