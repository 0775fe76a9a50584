"""Basic satellite interpolator fills the grid bilinearly."""
import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.core import Sub, as_np, call, check_close, check_equal, check_shape, require


@st.composite
def positions(draw):
    most = draw(st.sampled_from([3, 10, 40, 300]))
    gaps = draw(st.lists(st.one_of(st.sampled_from([1, 1, 2, 3]), st.integers(1, most)), min_size=1, max_size=7))
    if draw(st.integers(0, 3)) == 0:
        # ends at another round number
        more = draw(st.sampled_from([127, 128, 255, 256, 257, 300, 512])) - sum(gaps)
        gaps += [more] if more > 0 else []
    return [0] + [int(g) for g in np.cumsum(gaps)]


@st.composite
def cases(draw):
    return {"rows": draw(positions()), "cols": draw(positions()), "seed": draw(gen.seeds),
            "kind": draw(st.sampled_from(["random", "random", "impulse", "affine", "large"])),
            "dtype": draw(gen.dtypes), "array": draw(st.booleans()), "layout": draw(st.sampled_from(["C", "F", "strided"])),
            "twice": draw(st.booleans())}


def make(case, num):
    rng = np.random.default_rng([case["seed"], num])
    rows, cols = case["rows"], case["cols"]
    size = len(rows), len(cols)
    if case["kind"] == "impulse":
        arr = np.zeros(size)
        arr[rng.integers(0, size[0]), rng.integers(0, size[1])] = 1
    elif case["kind"] == "affine":
        arr = 0.5 * np.array(rows)[:, None] - 0.25 * np.array(cols)[None] + num
    else:
        arr = rng.uniform(-180, 180, size) * (1000 if case["kind"] == "large" else 1)
    return arr.astype(case["dtype"])


def check(case, rec):
    from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
    rows, cols = case["rows"], case["cols"]
    lat, lon = make(case, 0), make(case, 1)
    given = (np.array(cols), np.array(rows)) if case["array"] else (list(cols), list(rows))
    interp = call(BasicSatelliteInterpolator, given[0], given[1], gen.layout(lat.copy(), case["layout"]),
                  gen.layout(lon.copy(), case["layout"]))
    res = call(interp.interpolate)
    if case["twice"]:
        res = call(interp.interpolate)
    require(len(res) == 2, "%d results" % len(res))
    eps = float(np.finfo(case["dtype"]).eps)
    fine_rows, fine_cols = np.arange(rows[-1] + 1), np.arange(cols[-1] + 1)
    for tie, out, what in zip((lat, lon), res, ("latitude", "longitude")):
        out = as_np(out, what)
        check_shape(out, (rows[-1] + 1, cols[-1] + 1), what)
        check_equal(out[np.ix_(rows, cols)], tie, what + " at the tie points")
        tmp = np.stack([np.interp(fine_rows, rows, tie[:, c].astype(float)) for c in range(len(cols))], axis=1)
        expected = np.stack([np.interp(fine_cols, cols, tmp[r]) for r in range(len(fine_rows))])
        tol = 16 * eps * np.abs(tie).max() + 1e-300
        rec.notes["error / tolerance"] = check_close(out, expected, tol, what) / tol
        rec.label(case["dtype"], case["kind"])
    regular = len(set(np.diff(rows))) == 1 and len(set(np.diff(cols))) == 1
    rec.label("last position > 32768" if max(rows[-1], cols[-1]) > 32768 else "last position > 255" if max(rows[-1], cols[-1]) > 255 else "last position <= 255",
              "gap > 20" if max(max(np.diff(rows)), max(np.diff(cols))) > 20 else "gaps <= 20")
    rec.label("regular" if regular else "irregular", "square" if len(rows) == len(cols) else "not square")
    rec.mark(rows[-1] >= len(rows) or cols[-1] >= len(cols))


@st.composite
def long_cases(draw):
    case = draw(cases())
    down = draw(st.integers(0, 3)) == 0
    # many rows take seconds: each is interpolated on its own
    last = 2500 if down else draw(st.sampled_from([2500, 5000, 33000, 40000, 66000, 70000, 140000]))
    ties = sorted({0, last} | set(draw(st.lists(st.integers(1, last - 1), max_size=4))))
    short = [0, draw(st.integers(1, 3))]
    case["rows"], case["cols"] = (ties, short) if down else (short, ties)
    case["twice"] = False
    return case


SUBCHECKS = [
    Sub("bilinear", cases(), check, quick=1800, thorough=40000, rule="there are pixels between the tie points"),
    Sub("long", long_cases(), check, quick=120, thorough=2000, rule="there are pixels between the tie points"),
]
SETTINGS = {"technique": "property-based testing (Hypothesis) against numpy's one-dimensional interpolation"}
