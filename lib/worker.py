"""Runs one shard of a check against the built copy (a process of its own)."""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup_path(scratch):
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.path.insert(0, scratch)
    try:
        import hypothesis  # noqa
    except ImportError:
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import geotiepoints
    if not geotiepoints.__file__.startswith(scratch):
        raise RuntimeError("imported %s instead of the built copy" % geotiepoints.__file__)


class Shard:
    def __init__(self, args):
        self.args = args
        self.evaluations = 0
        self.invalid = 0
        self.keys = set()
        self.labels = collections.Counter()
        self.samples = []
        self.notes = {}
        self.subs = {}
        self.violation = None
        self.capped = False

    def run_case(self, sub, case):
        """Returns None, or the message of a violation."""
        from lib import core
        rec = core.Rec()
        with open(self.args.out + ".case", "w") as fh:
            json.dump({"sub": sub.name, "case": case}, fh)
        msg = None
        try:
            sub.check(case, rec)
        except core.Violation as err:
            msg = str(err)
        except core.Invalid:
            self.invalid += 1
            return None
        except Exception as err:
            if not core.from_sut(err, self.args.scratch):
                raise
            msg = "unexpected %s: %s" % (type(err).__name__, str(err)[:300])
        self.evaluations += 1
        self.subs[sub.name] = self.subs.get(sub.name, 0) + 1
        for label in set(rec.labels):
            self.labels[sub.name + ": " + label] += 1
        for key, val in rec.notes.items():
            key = sub.name + ": " + key
            self.notes[key] = max(self.notes.get(key, float(val)), float(val))
        if rec.nontrivial:
            key = core.case_key(sub.name, case)
            if key not in self.keys:
                self.keys.add(key)
                if len([s for s in self.samples if s["sub"] == sub.name]) < 2:
                    self.samples.append({"sub": sub.name, "case": case})
        return msg

    def run_sub(self, sub, count, seconds):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        import hypothesis.internal.conjecture.engine as engine
        from lib import core
        engine.MAX_SHRINKING_SECONDS = 20 if self.args.tier == "quick" else 90
        end = time.monotonic() + seconds
        found = []
        first = []

        def body(case):
            if not found and time.monotonic() > end:
                self.capped = True
                return
            if found and time.monotonic() > first[0] + 3 * engine.MAX_SHRINKING_SECONDS:
                return
            msg = self.run_case(sub, case)
            if msg is not None:
                if not found:
                    first.append(time.monotonic())
                found.append((case, msg))
                raise core.Violation(msg)

        seed = int.from_bytes(hashlib.sha256(("%d/%s/%s/%d" % (
            self.args.seed, self.args.id, sub.name, self.args.shard)).encode()).digest()[:8], "big")
        test = settings(max_examples=max(count, 1), database=None, deadline=None, report_multiple_bugs=False,
                        suppress_health_check=list(HealthCheck), print_blob=False,
                        phases=(Phase.generate, Phase.target, Phase.shrink))(given(sub.strategy)(body))
        test = hypothesis.seed(seed)(test)
        try:
            test()
        except (core.Violation, hypothesis.errors.Flaky):
            pass
        except BaseException as err:
            if not found:
                raise
            if isinstance(err, KeyboardInterrupt):
                raise
        if found:
            # the last failing case is Hypothesis' minimal one; if it was flaky, take the smallest seen
            case, msg = min(reversed(found), key=lambda f: len(json.dumps(f[0], sort_keys=True)))
            last = found[-1]
            if len(json.dumps(last[0])) <= len(json.dumps(case)) * 1.5:
                case, msg = last
            self.violation = {"property": self.args.id, "sub": sub.name, "case": case, "message": msg}
            return False
        return True

    def run_corpus(self, subs):
        path = os.path.join(HERE, "corpus", self.args.id + ".json")
        if not os.path.exists(path):
            return True
        byname = {s.name: s for s in subs}
        with open(path) as fh:
            entries = json.load(fh)
        for entry in entries:
            if entry["sub"] not in byname:
                continue
            msg = self.run_case(byname[entry["sub"]], entry["case"])
            if msg is not None:
                self.violation = {"property": self.args.id, "sub": entry["sub"], "case": entry["case"], "message": msg}
                return False
        return True

    def result(self):
        return {"evaluations": self.evaluations, "invalid": self.invalid, "keys": sorted(self.keys),
                "labels": dict(self.labels), "samples": self.samples, "notes": self.notes, "subs": self.subs,
                "violation": self.violation, "capped": self.capped}


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("--id", required=True)
    parser.add_argument("--tier", default="quick")
    parser.add_argument("--seed", type=int, default=1)
    parser.add_argument("--shard", type=int, default=0)
    parser.add_argument("--nshards", type=int, default=1)
    parser.add_argument("--seconds", type=float, default=60)
    parser.add_argument("--scratch", required=True)
    parser.add_argument("--out", required=True)
    parser.add_argument("--replay")
    parser.add_argument("--only")
    args = parser.parse_args()
    if os.environ.get("VERIF_LEAD"):
        import ctypes
        ctypes.CDLL(None).prctl(1, 9)  # end with the parent
    setup_path(args.scratch)
    import warnings
    warnings.simplefilter("ignore")
    os.environ["GEOTIEPOINTS_SCRATCH"] = args.scratch
    mod = importlib.import_module("checks." + args.id.lower())
    if hasattr(mod, "setup"):
        mod.setup(args)
    shard = Shard(args)
    subs = mod.SUBCHECKS
    if args.replay:
        with open(args.replay) as fh:
            entry = json.load(fh)
        sub = {s.name: s for s in subs}[entry["sub"]]
        msg = shard.run_case(sub, entry["case"])
        if msg is not None:
            shard.violation = dict(entry, message=msg)
    else:
        if args.only:
            subs = [s for s in subs if s.name in args.only.split(",")]
        ok = True
        if args.shard == 0:
            ok = shard.run_corpus(subs)
        total = sum(s.share for s in subs)
        for num, sub in enumerate(subs):
            if not ok:
                break
            count = sub.quick if args.tier == "quick" else sub.thorough
            # small counts are spread over the shards
            mine = count // args.nshards + (1 if (args.shard + num) % args.nshards < count % args.nshards else 0)
            if mine:
                ok = shard.run_sub(sub, mine, args.seconds * sub.share / total)
    with open(args.out + ".tmp", "w") as fh:
        json.dump(shard.result(), fh)
    os.replace(args.out + ".tmp", args.out)


def leave():
    """End without waiting for what the code under test may have left behind."""
    sys.stdout.flush()
    sys.stderr.flush()
    for child in multiprocessing.active_children():
        child.kill()
    os._exit(0)


if __name__ == "__main__":
    try:
        main()
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    leave()
