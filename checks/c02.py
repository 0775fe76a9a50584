"""Approximation grid lists nodes in value order; new values replace old."""
import itertools

import numpy as np
from geotiepoints.multilinear import MultilinearInterpolator
from hypothesis import strategies as st

from checks import c01
from lib import gen, models
from lib.core import Sub, as_np, call, check_close, require


def model_grid(smin, smax, orders, dtype):
    axes = []
    for a, b, n in zip(smin, smax, orders):
        a, b = float(dtype(a)), float(dtype(b))
        axes.append([a + (b - a) * k / (n - 1) for k in range(n)])
    return np.array(list(itertools.product(*axes))).T


@st.composite
def grid_cases(draw):
    grid = draw(c01.grids())
    d = len(grid["orders"])
    return {"grid": grid, "coef": draw(st.lists(st.tuples(gen.dec(-3, 3), gen.dec(-3, 3)).map(list),
                                               min_size=d, max_size=d)),
            "seed": draw(gen.seeds)}


def check_grid(case, rec):
    grid = case["grid"]
    orders, dtype = grid["orders"], np.dtype(grid["dtype"]).type
    smin = [b[0] for b in grid["bounds"]]
    smax = [b[1] for b in grid["bounds"]]
    eps = float(np.finfo(dtype).eps)
    interp = call(MultilinearInterpolator, smin, smax, orders, dtype=dtype)
    nodes = as_np(call(lambda: interp.grid), "grid")
    expected = model_grid(smin, smax, orders, dtype)
    scale = np.maximum(np.abs(smin), np.abs(smax))[:, None]
    check_close(nodes, expected, 8 * eps * scale, "grid nodes")
    rec.label("d=%d" % len(orders), grid["dtype"])
    rec.mark(len(set(orders)) > 1 or len(orders) == 1)
    # a function affine in each (normalized) coordinate is reproduced everywhere
    lo = np.array(smin)[:, None]
    width = (np.array(smax) - np.array(smin))[:, None]
    coef = np.array(case["coef"], dtype=float)

    def func(pts):
        norm = (pts - lo) / width
        factors = coef[:, :1] + coef[:, 1:] * norm
        return np.vstack([np.prod(factors, axis=0), factors.sum(axis=0)])

    call(interp.set_values, func(nodes.astype(float)))
    rng = np.random.default_rng(case["seed"])
    pts = (lo + width * rng.uniform(-0.3, 1.3, size=(len(orders), 40))).astype(dtype)
    res = call(interp, pts)
    offset = float((scale / width).max())          # cancellation of offsets in single precision
    mag = np.prod(np.abs(coef).sum(axis=1) * 2 + 1) + np.abs(coef).sum() * 2
    amp = 40 * eps * (max(orders) + offset) * mag * 2.6 ** len(orders)
    check_close(res, func(pts.astype(float)), amp, "multi-affine function")
    # any function is reproduced at the nodes
    values = np.random.default_rng(grid["vseed"]).normal(size=(1, nodes.shape[1]))
    call(interp.set_values, values)
    res = call(interp, nodes)
    check_close(res, values.astype(dtype), 60 * eps * (max(orders) * (1 + offset)) * np.abs(values).max(),
                "values at the nodes")


@st.composite
def large_cases(draw):
    case = draw(grid_cases())
    d = draw(st.integers(1, 3))
    orders = draw(st.sampled_from({1: [[300], [40000], [70000]], 2: [[2, 33000], [40000, 2], [150, 300], [257, 129]],
                                   3: [[2, 150, 150], [40, 33, 35], [130, 2, 260]]}[d]))
    bound = st.sampled_from([[0.0, 1.0], [-40.0, 60.0], [3.5, 300.5]])
    case["grid"].update(orders=orders, bounds=[draw(bound) for _ in range(d)])
    case["coef"] = [[0.5, -1.0]] * d
    return case


@st.composite
def histories(draw):
    grid = draw(c01.grids())
    op = st.one_of(
        st.tuples(st.just("set"), gen.seeds, st.integers(1, 4)),
        st.tuples(st.just("update"), gen.seeds, st.integers(1, 4)),
        st.tuples(st.just("query"), gen.seeds, st.integers(1, 6)),
        st.tuples(st.just("query"), gen.seeds, st.integers(1, 6)),
        st.tuples(st.just("grid"), st.just(0), st.just(0))).map(list)
    ops = draw(st.lists(op, min_size=2, max_size=10))
    if draw(st.integers(0, 3)):
        # new values, and a look at them
        ops += [["set", draw(gen.seeds), draw(st.integers(1, 4))], ["query", draw(gen.seeds), draw(st.integers(1, 6))]]
    return {"grid": grid, "initial": draw(st.booleans()), "ops": ops, "other": draw(st.booleans()),
            "source": draw(st.sampled_from(["float64", "float32"])),
            "layout": draw(st.sampled_from(["C", "F", "strided", "reversed"]))}


def check_history(case, rec):
    grid = case["grid"]
    orders, dtype = grid["orders"], np.dtype(grid["dtype"]).type
    smin = [b[0] for b in grid["bounds"]]
    smax = [b[1] for b in grid["bounds"]]
    eps = float(np.finfo(dtype).eps)
    size = int(np.prod(orders))
    current = None
    if case["initial"]:
        current = c01.make_values(grid).astype(dtype)
        interp = call(MultilinearInterpolator, smin, smax, orders, current.copy(), dtype=dtype)
    else:
        interp = call(MultilinearInterpolator, smin, smax, orders, dtype=dtype)
    other = None
    if case["other"]:
        other = call(MultilinearInterpolator, [b - 1 for b in smin], smax, [n + 1 for n in orders], dtype=dtype)
    sets = queries = updates = 0
    source = None
    fmin, fmax = (np.asarray(b, dtype=dtype).astype(np.longdouble) for b in (smin, smax))
    for op, seed, num in case["ops"]:
        rng = np.random.default_rng(seed)
        if op == "set":
            source = gen.layout(rng.normal(size=(num, size)).astype(case.get("source", dtype)),
                                case.get("layout", "C"))
            current = source.astype(dtype)
            call(interp.set_values, source)
            sets += 1
            if other is not None:
                call(other.set_values, rng.normal(size=(num, int(np.prod(np.array(orders) + 1)))))
        elif op == "update":
            if source is None:
                continue
            # the caller's array object with other values in it, set again
            source[...] = rng.normal(size=source.shape)
            current = source.astype(dtype)
            call(interp.set_values, source)
            sets += 1
            updates += 1
        elif op == "grid":
            nodes = call(lambda: interp.grid)
            if other is not None:
                call(lambda: other.grid)
            check_close(nodes, model_grid(smin, smax, orders, dtype),
                        8 * eps * np.maximum(np.abs(smin), np.abs(smax))[:, None], "grid nodes")
        elif current is not None:
            lo = np.array(smin)[:, None]
            hi = np.array(smax)[:, None]
            pts = (lo + (hi - lo) * rng.uniform(-0.1, 1.1, size=(len(orders), num))).astype(dtype)
            expected, tol = models.multilinear(fmin, fmax, orders, current, pts.astype(np.longdouble), eps)
            check_close(call(interp, pts), expected, tol, "query after %d new values" % sets)
            queries += 1
    rec.label("sets=%d" % min(sets, 3), "queries=%d" % min(queries, 3), "updated in place" if updates else "new arrays")
    rec.mark(sets >= 1 and queries >= 1)


SUBCHECKS = [
    Sub("grid", grid_cases(), check_grid, quick=6000, thorough=30000,
        rule="one dimension, or dimensions of different sizes"),
    Sub("large", large_cases(), check_grid, quick=80, thorough=1000, rule="one dimension, or dimensions of different sizes"),
    Sub("history", histories(), check_history, quick=4800, thorough=30000,
        rule="values were replaced at least once and queried at least once"),
]
SETTINGS = {"technique": "property-based testing (Hypothesis): grid model, function reproduction, operation histories"}
