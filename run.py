#!/opt/venv/bin/python
"""Check one property: build /repo's working tree privately, search for violations, report.

    run.py C01 [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Anything else: error of the check.
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

from lib import build as builder  # noqa: E402

CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}
ASAN_EXIT = 77


def meta(prop):
    """Static settings of a check, read without importing numpy or the tested code."""
    path = os.path.join(HERE, "checks", "settings.json")
    with open(path) as fh:
        return json.load(fh).get(prop, {})


def spawn(args, prop, scratch, work, shard, nshards, seconds, extra_env, replay=None):
    out = os.path.join(work, "shard%d.json" % shard)
    env = dict(os.environ)
    env.update({"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONHASHSEED": "0",
                "PYTHONDONTWRITEBYTECODE": "1", "VERIF_LEAD": "1", "HOME": work, "TMPDIR": work,
                "HYPOTHESIS_STORAGE_DIRECTORY": os.path.join(work, "hyp")})
    env.pop("PYTHONPATH", None)
    env.update(extra_env)
    cmd = [sys.executable, os.path.join(HERE, "lib", "worker.py"), "--id", prop, "--tier", args.tier,
           "--seed", str(args.seed), "--shard", str(shard), "--nshards", str(nshards), "--seconds", str(seconds),
           "--scratch", scratch, "--out", out]
    if replay:
        cmd += ["--replay", replay]
    if args.only:
        cmd += ["--only", args.only]
    log = open(os.path.join(work, "shard%d.log" % shard), "wb")
    return {"proc": subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, cwd=work,
                                     start_new_session=True),
            "out": out, "log": log.name, "shard": shard}


def stop(jobs):
    for job in jobs:
        if job["proc"].poll() is None:
            try:
                os.killpg(job["proc"].pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            job["proc"].wait()


def tail(path, size=6000):
    with open(path, "rb") as fh:
        data = fh.read()
    return data[-size:].decode(errors="replace")


def head(path, size=4000):
    with open(path, "rb") as fh:
        return fh.read(size).decode(errors="replace")


def crash_violation(prop, job):
    code = job["proc"].returncode
    asan = code == ASAN_EXIT
    if not asan and not (code < 0 and -code in CRASH):
        return None
    try:
        with open(job["out"] + ".case") as fh:
            entry = json.load(fh)
    except (OSError, ValueError):
        return None
    if asan:
        msg = "AddressSanitizer: " + next((ln for ln in head(job["log"], 20000).splitlines() if "ERROR: Addr" in ln), "")
    else:
        msg = "the process died with signal %d while running the case" % -code
    return {"property": prop, "sub": entry["sub"], "case": entry["case"], "message": msg}


def write_replay(violation):
    folder = os.path.join(HERE, "replays")
    os.makedirs(folder, exist_ok=True)
    text = json.dumps(violation, sort_keys=True, indent=1)
    digest = hashlib.sha1(json.dumps([violation["sub"], violation["case"]], sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(folder, "%s-%s-%s.json" % (violation["property"], violation["sub"], digest))
    with open(path, "w") as fh:
        fh.write(text + "\n")
    return path


def known_findings(prop):
    """Entries 'KNOWN property=<id> sub=<sub> key=<sha1 prefix> <text>' of known_findings.txt."""
    found = []
    with open(os.path.join(HERE, "known_findings.txt")) as fh:
        for line in fh:
            if line.startswith("known: property=%s " % prop):
                found.append(line.strip()[len("known: property=%s " % prop):])
    return found


def run(args):
    prop = args.id
    conf = meta(prop)
    start = time.monotonic()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    jobs = []
    try:
        scratch = os.path.join(work, "build")
        os.makedirs(scratch)
        try:
            builder.build(scratch, sanitize=False)
            asan = None
            if conf.get("asan"):
                asan = os.path.join(work, "build_asan")
                os.makedirs(asan)
                builder.build(asan, sanitize=True)
        except builder.BuildError as err:
            print("ERROR: the build of /repo failed\n%s" % err)
            return 2
        built = time.monotonic() - start
        quick = args.tier == "quick"
        nshards = args.shards or conf.get("shards", 8 if not quick else 6)
        seconds = args.seconds or (conf.get("seconds", 120) if quick else conf.get("thorough_seconds", 1500))
        hard = seconds * 1.5 + 240 if quick else seconds * 2 + 600
        if quick:
            hard = min(hard, 780)
        replay = os.path.abspath(args.replay) if args.replay else None
        if replay:
            nshards = 1
        asan_env = {}
        if asan:
            lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
            asan_env = {"LD_PRELOAD": lib, "PYTHONMALLOC": "malloc",
                        "ASAN_OPTIONS": "detect_leaks=0:exitcode=%d:abort_on_error=0:allocator_may_return_null=1:"
                                        "max_malloc_fill_size=0" % ASAN_EXIT, "VERIF_ASAN": "1"}
        for shard in range(nshards):
            use_asan = asan and (shard % 2 == 0 or replay)
            jobs.append(spawn(args, prop, asan if use_asan else scratch, work, shard, nshards, seconds,
                              asan_env if use_asan else {}, replay))
        violation = None
        deadline = time.monotonic() + hard
        results = []
        pending = list(jobs)
        error = None
        while pending and violation is None and error is None:
            time.sleep(0.05)
            for job in list(pending):
                if job["proc"].poll() is None:
                    continue
                pending.remove(job)
                if job["proc"].returncode == 0 and os.path.exists(job["out"]):
                    with open(job["out"]) as fh:
                        res = json.load(fh)
                    results.append(res)
                    violation = violation or res["violation"]
                else:
                    crash = crash_violation(prop, job)
                    if crash:
                        violation = violation or crash
                    else:
                        error = error or "shard %d ended with %s\n%s" % (job["shard"], job["proc"].returncode,
                                                                          tail(job["log"]))
            if time.monotonic() > deadline:
                error = "time limit of %d s reached by shards %s\n%s" % (
                    hard, [j["shard"] for j in pending], "".join(tail(j["log"], 1500) for j in pending))
        if error and not violation:
            # another shard may have found a violation at the same moment
            for job in jobs:
                if job["proc"].poll() is not None and os.path.exists(job["out"]):
                    with open(job["out"]) as fh:
                        violation = violation or json.load(fh)["violation"]
        stop(jobs)
        if args.verbose:
            for job in jobs:
                sys.stdout.write(tail(job["log"], 2000))
        if replay:
            if violation:
                print("reproduced: %s" % violation["message"])
                print("VIOLATION property=%s replay=%s" % (prop, replay))
                return 1
            if error:
                print("ERROR: " + error)
                return 2
            print("the property holds for this case")
            return 0
        evidence = summarize(args, conf, results, violation, built, time.monotonic() - start)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
            json.dump(evidence, fh, indent=1, sort_keys=True)
            fh.write("\n")
        cov = evidence["coverage"]
        if violation:
            path = write_replay(violation)
            print("%s [%s]: %s" % (prop, violation["sub"], violation["message"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if error:
            print("ERROR: " + error)
            return 2
        print("%s: held on %d cases (%d distinct non-trivial) in %.0f s%s" % (
            prop, cov["evaluations"], cov["distinct_nontrivial"], evidence["wall_s"],
            " (generation ended early by the time budget)" if cov["generation_capped"] else ""))
        if args.verbose:
            print(json.dumps({k: cov[k] for k in ("cases_per_subcheck", "classes", "largest_observed")}, indent=1))
        for known in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, known))
        if cov["distinct_nontrivial"] == 0 or cov["empty_subchecks"]:
            print("ERROR: no non-trivial case was made%s" % cov["empty_subchecks"])
            return 2
        return 0
    finally:
        stop(jobs)
        shutil.rmtree(work, ignore_errors=True)


def summarize(args, conf, results, violation, built, wall):
    labels, subs, notes = collections.Counter(), collections.Counter(), {}
    keys, samples = set(), []
    for res in results:
        labels.update(res["labels"])
        subs.update(res["subs"])
        keys.update(res["keys"])
        for name, val in res["notes"].items():
            notes[name] = max(val, notes.get(name, val))
        for sample in res["samples"]:
            if len([s for s in samples if s["sub"] == sample["sub"]]) < 2 and len(json.dumps(sample)) < 20000:
                samples.append(sample)
    if violation and not samples:
        samples.append({"sub": violation["sub"], "case": violation["case"]})
    expected = conf.get("subs", {})
    only = args.only.split(",") if args.only else None
    empty = [name for name in expected if not subs.get(name) and (only is None or name in only)]
    rule = "; ".join("%s: %s" % (name, text) for name, text in expected.items())
    return {
        "property": args.id, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(res["evaluations"] for res in results) + (0 if results else 1),
            "distinct_nontrivial": len(keys),
            "rule": "Cases are drawn by Hypothesis from the strategies of the sub-checks (distinct = different "
                    "generated case). Non-trivial, per sub-check: " + (rule or "see checks/%s.py" % args.id.lower()),
            "samples": samples,
            "classes": dict(sorted(labels.items())),
            "cases_per_subcheck": dict(subs),
            "outside_domain": sum(res["invalid"] for res in results),
            "largest_observed": {k: float(v) for k, v in sorted(notes.items())},
            "empty_subchecks": empty,
            "generation_capped": any(res["capped"] for res in results),
            "shards": len(results), "build_s": round(built, 1),
        },
        "assumptions": conf.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": 1 if violation else 0,
    }


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("id")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=("quick", "thorough"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    parser.add_argument("--shards", type=int)
    parser.add_argument("--seconds", type=float)
    parser.add_argument("--replay")
    parser.add_argument("--only", help="comma separated sub-checks (debugging)")
    parser.add_argument("--verbose", "-v", action="store_true")
    args = parser.parse_args()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    try:
        code = run(args)
    except Exception as err:  # an error of the check, never a verdict
        import traceback
        traceback.print_exc()
        print("ERROR: %s" % err)
        code = 2
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    main()
