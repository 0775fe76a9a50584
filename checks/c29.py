"""Tie points may come in any array container."""
import os
import tempfile

import dask
import dask.array as da
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from checks import targets
from checks.c22 import compare
from lib import gen
from lib.core import Sub, call

VII = (targets.ViiData, targets.ViiGeo)
NAMES = sorted(n for n, t in targets.TARGETS.items() if t not in (targets.Cviirs, targets.Simple) + VII
               and n not in targets.SLOW)
SCANS = sorted(n for n, t in targets.TARGETS.items() if t in (targets.Cviirs, targets.Simple) + VII
               or n in targets.SLOW)
BOXES = ["lazy", "labelled", "labelled lazy", "with coordinates", "F", "strided", "reversed", "readonly", "memory map"]


@st.composite
def cases(draw, names, boxes):
    spec = {"t": draw(st.sampled_from(names)), "data": draw(st.integers(0, 3)), "size": draw(st.integers(0, 1)),
            "dtype": draw(gen.dtypes), "opt": draw(st.integers(0, 29))}
    if names is SCANS:
        # plain arrays, or labelled ones around plain ones, to start with
        step = 3 if targets.TARGETS[spec["t"]] in VII else 5
        spec["opt"] = spec["opt"] // step * step
    same = draw(st.booleans())
    first = draw(st.sampled_from(boxes))
    return {"spec": spec, "changes": draw(st.lists(st.integers(0, 2), max_size=2)),
            "query": draw(st.integers(0, targets.QUERIES - 1)),
            "boxes": [first] * 3 if same else [draw(st.sampled_from(boxes + ["plain"])) for _ in range(3)],
            "chunks": draw(st.lists(st.integers(1, 20), min_size=2, max_size=2)),
            "scheduler": draw(st.sampled_from(["synchronous", "threads"]))}


def boxed(arr, box, chunks):
    dims = ["p", "q", "r", "s", "t"][:arr.ndim]
    if box == "plain":
        return arr
    if box == "lazy":
        return da.from_array(arr, chunks=tuple((chunks * 3)[:arr.ndim]))
    if box == "labelled":
        return xr.DataArray(arr, dims=dims, attrs={"units": "degrees"})
    if box == "labelled lazy":
        return xr.DataArray(boxed(arr, "lazy", chunks), dims=dims)
    if box == "with coordinates":
        return xr.DataArray(arr, dims=dims, name="ties",
                            coords={d: np.arange(n) * 2.0 + 5 for d, n in zip(dims, arr.shape)})
    if box == "memory map":
        with tempfile.NamedTemporaryFile(dir=os.environ.get("TMPDIR")) as fh:
            fh.write(np.ascontiguousarray(arr).tobytes())
            fh.flush()
            return np.memmap(fh.name, dtype=arr.dtype, mode="r", shape=arr.shape)
    if box == "strided":
        big = np.full([2 * n for n in arr.shape], np.nan, dtype=arr.dtype)
        part = big[(slice(None, None, 2),) * arr.ndim]
        part[...] = arr
        return part
    if box == "reversed":
        back = (slice(None, None, -1),) * arr.ndim
        return arr[back].copy()[back]
    return gen.layout(np.ascontiguousarray(arr), box)


def rebox(obj, boxes, chunks, count):
    """The same inputs with all arrays of two or more dimensions in containers."""
    if isinstance(obj, (list, tuple)):
        return type(obj)([rebox(o, boxes, chunks, count) for o in obj])
    if isinstance(obj, xr.DataArray):
        return obj.copy(data=rebox(obj.values, boxes, chunks, count))
    if isinstance(obj, np.ndarray) and obj.ndim > 1:
        count[0] += 1
        return boxed(obj, boxes[count[0] % len(boxes)], chunks)
    return obj


def check(case, rec):
    spec = case["spec"]

    def run(target):
        obj = call(target.start)
        for num in case["changes"]:
            if num < target.changes:
                call(target.change, obj, num)
        return targets.values(call(target.call, obj, case["query"]))

    with dask.config.set(scheduler=case["scheduler"]):
        ref = run(targets.make(spec))
        target = targets.make(spec)
        count = [0]
        boxes = case["boxes"]
        target.inputs = rebox(target.inputs, boxes, case["chunks"], count)
        if spec["t"] == "Multilinear":
            target.values, target.queries = target.inputs[3:]
        compare(run(target), ref, "%s with %s arrays" % (spec, boxes))
    rec.label(spec["t"], "one kind" if len(set(boxes)) == 1 else "several kinds", *boxes)
    rec.mark(count[0] > 0 and set(boxes) != {"plain"})


RULE = "at least one array was not a plain one"
SUBCHECKS = [
    Sub("containers", cases(NAMES, BOXES), check, quick=2000, thorough=40000, rule=RULE, share=2.0),
    Sub("scans", cases(SCANS, ["F", "strided", "reversed", "readonly", "memory map"]), check, quick=200,
        thorough=4000, rule=RULE),
]
SETTINGS = {"technique": "differential property-based testing (Hypothesis): array containers and memory layouts against "
                         "plain arrays"}
