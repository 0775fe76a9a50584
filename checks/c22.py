"""Interpolation is pure: inputs stay untouched and history has no effect."""
import dask
import numpy as np
from hypothesis import strategies as st

from checks import targets
from lib import gen
from lib.core import Sub, Violation, check_shape, require
from lib.zygote import Zygote

ALONE = {}      # results computed by processes that did nothing else
zygote = None


def alone(request):
    """Construct, change, query: nothing else."""
    spec, changes, query = request
    with dask.config.set(scheduler="synchronous"):
        target = targets.make(spec)
        obj = target.start()
        for num in changes:
            target.change(obj, num)
        if isinstance(query, list):
            return target.fail(obj, query[0])
        return targets.values(target.call(obj, query))


def setup(args):
    global zygote
    import geotiepoints  # noqa
    import geotiepoints.basic_interpolator  # noqa
    import geotiepoints.modisinterpolator  # noqa
    import geotiepoints.multilinear  # noqa
    import geotiepoints.simple_modis_interpolator  # noqa
    import geotiepoints.viiinterpolator  # noqa
    zygote = Zygote(work)


def reference(spec, changes, query):
    key = repr((sorted(spec.items()), changes, query))
    if key not in ALONE:
        if len(ALONE) > 400:
            ALONE.clear()
        ok, res = zygote((spec, list(changes), query))
        if not ok:
            raise Violation("%s alone: %s" % (spec, res))
        ALONE[key] = res
    return ALONE[key]


@st.composite
def histories(draw, names, min_steps, max_steps):
    """Steps: new object | change it | query it | misuse it | overwrite results and empty the lists returned."""
    some = draw(st.lists(st.sampled_from(names), min_size=2, max_size=4, unique=True))
    steps, slots = [], []
    if draw(st.booleans()):
        # one after another, each by its own means
        for name in draw(st.permutations(some)):
            spec = {"t": name, "data": draw(st.integers(0, 3)), "size": draw(st.integers(0, 2)),
                    "dtype": draw(gen.dtypes), "opt": draw(st.integers(0, 29))}
            slots.append(spec)
            steps += [["new", spec], ["call", len(slots) - 1, 0]]
    for _ in range(draw(st.integers(min_steps, max_steps))):
        kind = draw(st.sampled_from(["call", "new", "call", "new", "change", "scribble", "fail"]))
        if not slots or kind == "new":
            if slots and draw(st.booleans()):
                # a relative: the same call but for one thing
                spec = dict(draw(st.sampled_from([s for s in slots])))
                field = draw(st.sampled_from(["data", "size", "dtype", "opt", "t"]))
            else:
                spec, field = {"t": None, "data": 0, "size": 0, "dtype": "float64", "opt": 0}, None
            fresh = {"t": draw(st.sampled_from(some)), "data": draw(st.integers(0, 3)), "size": draw(st.integers(0, 2)),
                     "dtype": draw(gen.dtypes), "opt": draw(st.integers(0, 29))}
            if field is None:
                spec = fresh
            else:
                spec[field] = fresh[field]
            slots.append(spec)
            steps.append(["new", spec])
            if draw(st.booleans()):
                steps.append(["call", len(slots) - 1, draw(st.integers(0, targets.QUERIES - 1))])
        elif kind == "call":
            steps.append(["call", draw(st.integers(0, len(slots) - 1)), draw(st.integers(0, targets.QUERIES - 1))])
        elif kind == "change":
            steps.append(["change", draw(st.integers(0, len(slots) - 1)), draw(st.integers(0, 2))])
        elif kind == "fail":
            steps.append(["fail", draw(st.integers(0, len(slots) - 1)), draw(st.integers(0, 6))])
        else:
            steps.append(["scribble", draw(st.integers(0, 5))])
    steps.append(["call", draw(st.integers(0, len(slots) - 1)), draw(st.integers(0, targets.QUERIES - 1))])
    return {"steps": steps, "fresh": draw(st.sampled_from([True, True, False]))}


def compare(res, ref, what):
    require(len(res) == len(ref), "%s: %d arrays, alone %d" % (what, len(res), len(ref)))
    for num, (a, b) in enumerate(zip(res, ref)):
        check_shape(a, b.shape, what)
        require(a.dtype == b.dtype, "%s: %s, alone %s" % (what, a.dtype, b.dtype))
        eps = np.finfo(b.dtype).eps if b.dtype.kind == "f" else 0
        scale = np.nanmax(np.abs(b)) if b.size and not np.isnan(b).all() else 0
        with np.errstate(all="ignore"):
            bad = ~(np.abs(a - b) <= 64 * eps * (np.abs(b) + scale * 1e-3)) & ~(np.isnan(a) & np.isnan(b)) & (a != b)
        if bad.any():
            idx = tuple(int(i) for i in np.argwhere(bad)[0])
            raise Violation("%s, array %d: %d of %d elements differ; at %s got %r, alone %r"
                            % (what, num, bad.sum(), bad.size, idx, float(a[idx]), float(b[idx])))


def scribble(res):
    """Overwrite what was returned, as its owner may; empty the list."""
    parts = res if isinstance(res, (list, tuple)) else [res]
    for part in parts:
        data = getattr(part, "data", part) if hasattr(part, "dims") else part
        if isinstance(data, np.ndarray) and data.flags.writeable:
            data[...] = np.nan if data.dtype.kind == "f" else 0
    if isinstance(res, list):
        del res[:]


def execute(steps):
    """Run the history; what came out of its steps, and what went wrong apart from results."""
    slots, kept, events = [], [], []
    with dask.config.set(scheduler="synchronous"):
        for num, step in enumerate(steps):
            what = "step %d" % num
            if step[0] == "new":
                spec = step[1]
                try:
                    target = targets.make(spec)
                    snap = targets.snapshot(target.inputs)
                    obj = target.start()
                except Exception as err:
                    events.append(("raised", what, spec, [], 0, repr(err)))
                    break
                slots.append([spec, target, obj, [], snap])
            elif step[0] == "scribble":
                if kept:
                    old = kept.pop(step[1] % len(kept))
                    scribble(old[0])
                    events.append(("scribbled",))
            else:
                spec, target, obj, changes, snap = slots[step[1]]
                if step[0] == "change":
                    if step[2] < target.changes and len(changes) < 4:
                        target.change(obj, step[2])
                        changes.append(step[2])
                elif step[0] == "fail":
                    events.append(("misused", what, spec, list(changes), [step[2]], target.fail(obj, step[2])))
                else:
                    what = "%s (%s%s, query %d)" % (what, spec, ", changes %s" % changes if changes else "", step[2])
                    try:
                        res = target.call(obj, step[2])
                        vals = targets.values(res)
                    except Exception as err:
                        events.append(("raised", what, spec, list(changes), step[2], repr(err)))
                        break
                    events.append(("called", what, spec, list(changes), step[2], vals))
                    kept.append((res, vals, what))
            for spec, target, obj, changes, snap in slots:
                if not targets.same(snap, targets.snapshot(target.inputs)):
                    return events, "step %d (%s) changed the input of %s" % (num, step, spec)
        try:
            for res, vals, what in kept:
                compare(targets.values(res), vals, what + ", looked at again in the end")
        except Violation as err:
            return events, str(err)
    return events, None


def work(request):
    return execute(request[1]) if request[0] == "history" else alone(request)


def check(case, rec):
    steps = case["steps"]
    if case.get("fresh"):
        ok, res = zygote(("history", steps))
        if not ok:
            raise Violation("a history in a process of its own: %s" % res)
    else:
        res = execute(steps)
    events, problem = res
    calls = 0
    for event in events:
        if event[0] == "scribbled":
            continue
        kind, what, spec, changes, query, outcome = event
        ref = reference(spec, changes, query)
        if kind == "raised":
            raise Violation("%s: %s raised %s, alone it works" % (what, spec, outcome))
        if kind == "misused":
            require(outcome == ref, "%s: misuse %d of %s is %s, alone it is %s"
                    % (what, query[0], spec, *("refused" if r else "answered" for r in (outcome, ref))))
        else:
            compare(outcome, ref, what)
            calls += 1
            rec.label("calls " + spec["t"])
    require(problem is None, problem)
    rec.label("calls: %s" % (calls if calls < 5 else "5 or more"),
              "objects: %d" % min(sum(s[0] == "new" for s in steps), 5),
              "results overwritten" if ("scribbled",) in events else "results left alone",
              "misused" if any(e[0] == "misused" for e in events) else "not misused",
              "process of its own" if case.get("fresh") else "process with a past")
    rec.mark(calls >= 2)


OBJECTS = sorted(n for n, t in targets.TARGETS.items() if t.start is not targets.Target.start)
FUNCTIONS = sorted(n for n in targets.TARGETS if n not in OBJECTS and n not in targets.SLOW)
RULE = "at least two calls were made"
SUBCHECKS = [
    Sub("objects", histories(OBJECTS, 2, 14), check, quick=1160, thorough=30000, rule=RULE),
    Sub("functions", histories(FUNCTIONS, 1, 9), check, quick=540, thorough=15000, rule=RULE),
    Sub("scans", histories(sorted(targets.SLOW | {"simple_1km_to_500m", "simple_1km_to_250m", "modis5kmto1km"}), 1, 6),
        check, quick=240, thorough=6000, rule=RULE),
]
SETTINGS = {"technique": "stateful property-based testing (Hypothesis): random histories against calls made alone in "
                         "fresh processes"}
