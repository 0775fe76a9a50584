"""Concurrent calls give the same results as calls made one after another."""
import sys
import threading

import dask
from hypothesis import strategies as st

from checks import c22, pipelines, targets
from lib import gen
from lib.core import Sub, Violation, require


def setup(args):
    c22.setup(args)


@st.composite
def cases(draw, names, max_threads, max_calls):
    """Threads, each with calls of its own; some of them use one object, or the same arrays."""
    some = draw(st.lists(st.sampled_from(names), min_size=1, max_size=2))

    def spec():
        return {"t": draw(st.sampled_from(some)), "data": draw(st.integers(0, 3)), "size": draw(st.integers(0, 2)),
                "dtype": draw(gen.dtypes), "opt": draw(st.integers(0, 29))}

    specs = [spec()]
    for _ in range(draw(st.sampled_from([1, 1, 2, 3, 0]))):
        if draw(st.integers(0, 2)):
            # same but for one thing: buffers of the same size with other contents
            new = dict(specs[0])
            new[draw(st.sampled_from(["data", "data", "dtype", "size"]))] = None
            fresh = spec()
            new = {k: fresh[k] if v is None else v for k, v in new.items()}
        else:
            new = spec()
        specs.append(new)
    threads = []
    for _ in range(draw(st.sampled_from([3, 2, 4, max_threads]))):
        threads.append([[draw(st.integers(0, len(specs) - 1)), draw(st.integers(0, targets.QUERIES - 1))]
                        for _ in range(draw(st.integers(1, max_calls)))])
    return {"specs": specs, "threads": threads, "share": draw(st.booleans()), "change": draw(st.integers(0, 3)),
            "repeat": draw(st.integers(1, 3)), "scheduler": draw(st.sampled_from(["synchronous", "threads"])),
            "switch": draw(st.sampled_from([1e-6, 1e-4, 5e-3]))}


def prepare(case, num):
    spec = case["specs"][num]
    target = targets.make(spec)
    obj = target.start()
    changes = []
    if case["change"] < target.changes:
        target.change(obj, case["change"])
        changes.append(case["change"])
    return target, obj, changes


def check(case, rec):
    shared = [prepare(case, n) for n in range(len(case["specs"]))]
    for thread in case["threads"]:
        for num, query in thread:
            c22.reference(case["specs"][num], shared[num][2], query)
    plans = []
    for thread in case["threads"]:
        own = {}
        plan = []
        for num, query in thread:
            item = shared[num]
            if not (case["share"] and item[0].shareable):
                if num not in own:
                    own[num] = prepare(case, num)
                item = own[num]
            plan.append((num, query, item))
        plans.append(plan)
    problems = []
    barrier = threading.Barrier(len(plans))

    def run(plan, name):
        try:
            barrier.wait(60)
            for _ in range(case["repeat"]):
                out = [(num, query, item, item[0].call(item[1], query)) for num, query, item in plan]
                for num, query, item, res in out:
                    what = "thread %d of %d, %s query %d" % (name, len(plans), case["specs"][num], query)
                    c22.compare(targets.values(res), c22.reference(case["specs"][num], item[2], query), what)
        except Violation as err:
            problems.append(str(err))
        except Exception as err:
            problems.append("thread %d of %d raised %r, alone it works" % (name, len(plans), err))

    interval = sys.getswitchinterval()
    try:
        sys.setswitchinterval(case["switch"])
        with dask.config.set(scheduler=case["scheduler"], num_workers=3):
            threads = [threading.Thread(target=run, args=(plan, n), daemon=True) for n, plan in enumerate(plans)]
            for thread in threads:
                thread.start()
            for thread in threads:
                thread.join(120)
                require(not thread.is_alive(), "a thread did not end within 120 s")
    finally:
        sys.setswitchinterval(interval)
    if problems:
        raise Violation(problems[0])
    rec.label("threads=%d" % len(plans), "shared objects" if case["share"] else "objects of their own",
              "different calls" if len(case["specs"]) > 1 else "same call", case["scheduler"],
              *["calls " + s["t"] for s in case["specs"]])
    rec.mark()


SCANS = sorted(pipelines.CVIIRS * 3 + pipelines.SIMPLE * 2) + ["modis1kmto500m", "modis1kmto250m"]
SMALL = sorted(n for n in targets.TARGETS if n not in SCANS)
RULE = "every case (two or more threads start together)"
SUBCHECKS = [
    Sub("scans", cases(SCANS, 4, 2), check, quick=240, thorough=5000, rule=RULE),
    Sub("small", cases(SMALL, 5, 3), check, quick=620, thorough=15000, rule=RULE),
]
SETTINGS = {"technique": "property-based testing (Hypothesis) of generated thread programs against calls made alone",
            "assumptions": ["interleavings are those the operating system and the interpreter's switch interval give"]}
