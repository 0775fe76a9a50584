#!/opt/venv/bin/python
"""Writes checks/settings.json and MANIFEST.json from the checks (run after changing their SETTINGS or sub-checks)."""
import importlib
import json
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from lib import build, worker  # noqa: E402

NOTE = ("Searches generated inputs, no proof: %s cases per quick run (thorough: %s), every output pixel of each compared. "
        "Trusts numpy, scipy, dask and xarray, the reference models in lib/ and checks/, and the C compiler.")


def main():
    with open(os.path.join(HERE, "properties.jsonl")) as fh:
        props = [json.loads(line) for line in fh]
    settings, entries = {}, []
    with tempfile.TemporaryDirectory() as scratch:
        build.build(scratch)
        worker.setup_path(scratch)
        for prop in props:
            pid = prop["id"]
            mod = importlib.import_module("checks." + pid.lower())
            conf = {k: v for k, v in mod.SETTINGS.items() if k != "technique"}
            conf["subs"] = {s.name: s.rule for s in mod.SUBCHECKS}
            settings[pid] = conf
            note = NOTE % (sum(s.quick for s in mod.SUBCHECKS), sum(s.thorough for s in mod.SUBCHECKS))
            if conf.get("assumptions"):
                note += " Assumes: " + "; ".join(conf["assumptions"]) + "."
            entries.append({"property": pid, "quick_cmd": "/opt/venv/bin/python run.py %s --tier quick" % pid,
                            "thorough_cmd": "/opt/venv/bin/python run.py %s --tier thorough" % pid,
                            "evidence_file": "evidence/%s.json" % pid, "technique": mod.SETTINGS["technique"],
                            "level": "exploration", "level_note": note})
    with open(os.path.join(HERE, "checks", "settings.json"), "w") as fh:
        json.dump(settings, fh, indent=1, sort_keys=True)
        fh.write("\n")
    manifest = {"version": 1, "setup_cmd": "true", "checks": entries,
                "not_applicable": [],
                "notes": "Each check builds a private copy of /repo's working tree; no hooks are needed in /repo."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
