"""Write MANIFEST.json from the property modules. usage: python tools/gen_manifest.py"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
MODEL = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C12", "C17", "C19", "C21"}
TECH_MODEL = ("model checking: exhaustive explicit-state exploration of operation histories within bounds, the real code "
              "run in lockstep with an executable reference model on every transition")
TECH_DIRECT = ("model checking: exhaustive enumeration of all histories / inputs within bounds, executed on the real code, "
               "every one judged by an independent oracle")


def main():
    ids = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
    checks = []
    for i in ids:
        m = importlib.import_module("mc.props." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": f"bin/check {i} quick",
            "thorough_cmd": f"bin/check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH_MODEL if i in MODEL else TECH_DIRECT,
            "level": "model_checking",
            "level_note": "Exhaustive within: " + m.BOUNDS + ". Assumes: " + "; ".join(m.ASSUMPTIONS)
                          + ". Trusts: the reference model/oracle in mc/, jax, python.",
        })
    json.dump({"version": 1,
               "setup_cmd": "JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
                            "\"import sys; sys.path.insert(0, '/repo'); import mc.runner, mc.model\"",
               "checks": checks,
               "not_applicable": [],
               "notes": "The code is plain python: every check imports it from /repo's working tree at run time. "
                        "No hooks are needed."},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
