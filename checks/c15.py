"""MODIS results do not depend on the array container or its chunks."""
import dask
import dask.array as da
import numpy as np
import xarray as xr
from dask.callbacks import Callback
from hypothesis import strategies as st

from checks import pipelines
from lib import gen
from lib.core import Sub, as_np, call, check_places, check_shape, require

CONTAINERS = ["numpy", "dask", "labelled", "labelled dask"]


@st.composite
def splits(draw, total, near):
    kind = draw(st.sampled_from(["whole", "regular", "ragged", "scans", "some scans", "some scans", "some scans",
                                 "scans first"]))
    if kind == "whole":
        return [total]
    if kind == "regular":
        size = draw(st.integers(1, total))
    elif kind == "scans":
        size = near * draw(st.integers(1, max(total // near, 1)))
    elif kind in ("some scans", "scans first"):
        # whole scans of different numbers; or whole scans first and anything after
        out, left = [], total
        while left > 0 and len(out) < 5:
            size = near * draw(st.integers(1, max(left // near, 1)))
            if kind == "scans first" and out:
                size = draw(st.integers(1, left))
            out.append(min(size, left))
            left -= out[-1]
        return out + ([left] if left else [])
    else:
        out, left = [], total
        while left > 0 and len(out) < 5:
            size = draw(st.integers(1, left))
            out.append(size)
            left -= size
        return out + ([left] if left else [])
    size = min(size, total)
    return [size] * (total // size) + ([total % size] if total % size else [])


@st.composite
def cases(draw, pipes, max_scans):
    case = draw(pipelines.with_swath(pipelines.full(pipes, max_scans=max_scans, zeniths=pipelines.CALM)))
    if case["pipe"] in pipelines.SIMPLE:
        case["cfg"]["width"] = draw(st.integers(2, 40))
    pipe = pipelines.build(case)
    nargs = 2 if case["pipe"] in pipelines.SIMPLE else 3
    same = draw(st.sampled_from([True, True, False]))
    first = draw(st.sampled_from(CONTAINERS[1:]))
    args = []
    for num in range(nargs):
        box = first if same or num == 0 else draw(st.sampled_from(CONTAINERS))
        like = draw(st.sampled_from(["same", "permuted", "own"]))
        if num and like == "same":
            chunks = args[0]["chunks"]
        elif num and like == "permuted":
            chunks = [draw(st.permutations(c)) for c in args[0]["chunks"]]
        else:
            cols = [pipe.cols] if draw(st.booleans()) else draw(splits(pipe.cols, 10))
            chunks = [draw(splits(pipe.rows, pipe.scan[0])), cols]
        args.append({"box": box, "chunks": chunks})
    case["args"] = args
    case["dims"] = draw(st.sampled_from([["y", "x"], ["rows", "cols"], ["along", "across"]]))
    case["part"] = draw(st.lists(st.integers(0, 1000), min_size=4, max_size=4))
    case["readonly"] = draw(st.integers(0, 3)) == 0
    case["scheduler"] = draw(st.sampled_from(["synchronous", "synchronous", "threads"]))
    return case


def boxed(arr, arg, dims):
    if "dask" in arg["box"]:
        arr = da.from_array(arr, chunks=tuple(tuple(c) for c in arg["chunks"]))
    if "labelled" in arg["box"]:
        arr = xr.DataArray(arr, dims=dims)
    return arr


class Tasks(Callback):
    count = 0

    def _pretask(self, key, dsk, state):
        self.count += 1


def check(case, rec):
    pipe = pipelines.build(case)
    lon, lat = gen.make_swath(case["swath"], pipe.rows, pipe.cols)
    dtype = np.dtype(case["dtype"])
    arrays = [lon.astype(dtype), lat.astype(dtype)]
    func = pipelines.simple_func(case["pipe"]) if case["pipe"] in pipelines.SIMPLE else pipelines.cviirs_func(
        case["pipe"])
    if case["pipe"] not in pipelines.SIMPLE:
        arrays.append(pipe.satz.astype(dtype))
    plain = [as_np(r) for r in call(func, *[a.copy() for a in arrays])]
    dims = case["dims"]
    args = [boxed(gen.layout(a.copy(), "readonly" if case.get("readonly") else "C"), arg, dims) for a, arg in zip(arrays, case["args"])]
    with dask.config.set(scheduler=case["scheduler"]):
        with Tasks() as tasks:
            res = call(func, *args)
            require(tasks.count == 0, "calling the function on lazy arrays ran %d tasks" % tasks.count)
        require(len(res) == 2, "%d results" % len(res))
        boxes = [a["box"] for a in case["args"]]
        lazy = any("dask" in b for b in boxes)
        tol = 1e-3 if dtype == np.float64 else 5.0
        values = []
        for num, (arr, ref) in enumerate(zip(res, plain)):
            what = "longitude" if num == 0 else "latitude"
            if all("labelled" in b for b in boxes):
                require(isinstance(arr, xr.DataArray), "%s is not labelled but %s" % (what, type(arr).__name__))
                require(list(arr.dims) == dims, "%s has dimensions %s instead of %s" % (what, arr.dims, dims))
            if isinstance(arr, xr.DataArray):
                arr = arr.data
            if all("dask" in b for b in boxes):
                require(isinstance(arr, da.Array), "%s is not lazy but %s" % (what, type(arr).__name__))
            if not lazy:
                require(isinstance(arr, np.ndarray), "%s is not in memory but %s" % (what, type(arr).__name__))
            check_shape(arr, ref.shape, what + " (announced)")
            require(arr.dtype == dtype, "%s announced as %s, input is %s" % (what, arr.dtype, dtype))
            if isinstance(arr, da.Array):
                values.append(arr)
            else:
                values.append(arr)
        got = call(dask.compute, *values)
        for num, (arr, val) in enumerate(zip(values, got)):
            check_shape(as_np(val), plain[num].shape, "computed result")
            require(as_np(val).dtype == dtype, "announced %s, computed %s" % (dtype, as_np(val).dtype))
            if isinstance(arr, da.Array):
                k = case["part"][0] % arr.npartitions
                idx = np.unravel_index(k, arr.numblocks)
                block = call(arr.blocks[idx].compute)
                check_shape(as_np(block), [c[i] for c, i in zip(arr.chunks, idx)], "block %s" % (tuple(map(int, idx)),))
        worst = check_places(got[0], got[1], plain[0], plain[1], tol, "%s with %s" % (case["pipe"], boxes))
        rec.notes["metres"] = worst
        if isinstance(values[0], da.Array) and isinstance(values[1], da.Array):
            rows, cols = plain[0].shape
            r0, r1 = sorted([case["part"][0] % rows, case["part"][1] % rows])
            c0, c1 = sorted([case["part"][2] % cols, case["part"][3] % cols])
            sl = slice(r0, r1 + 1), slice(c0, c1 + 1)
            # one of the results alone, and a part of the other
            lon_part, lat_part = call(values[0][sl].compute), call(values[1][sl].compute)
            check_places(lon_part, lat_part, plain[0][sl], plain[1][sl], tol, "part of the result")
    layouts = [a["chunks"] for a in case["args"] if "dask" in a["box"]]
    per = pipe.scan[0]
    rec.label("readonly" if case.get("readonly") else "writeable", case["pipe"], "+".join(sorted(set(boxes))), case["dtype"], case["scheduler"])
    if any(c % per for lay in layouts for c in lay[0]):
        rec.label("chunks not aligned with scans")
    if any(len(lay[1]) > 1 for lay in layouts):
        rec.label("split columns")
    if any(lay != layouts[0] for lay in layouts):
        rec.label("different layouts")
    if len(set(boxes)) > 1:
        rec.label("mixed containers")
    rec.mark(any(len(lay[0]) * len(lay[1]) > 1 for lay in layouts) or "labelled" in boxes)


RULE = "a lazy argument has more than one chunk, or an argument is labelled in memory"
SUBCHECKS = [
    Sub("simple", cases(pipelines.SIMPLE, 4), check, quick=1500, thorough=20000, rule=RULE),
    Sub("cviirs", cases(pipelines.CVIIRS, 3), check, quick=480, thorough=8000, rule=RULE),
]
SETTINGS = {"technique": "differential property-based testing (Hypothesis): containers and chunk layouts against plain arrays"}
