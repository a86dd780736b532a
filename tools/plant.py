"""
Plants bugs: for each entry of a spec module, edits a scratch copy of /repo, runs the build, the tests and the
demonstration with and without the change, and keeps what qualifies as /verif/seeded/<id>/.

usage: python tools/plant.py SPEC.py [id ...]
SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new), ...], needs, breaks, demo)]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent",
           PYTHONHASHSEED="0", XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=2")
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# Exit 0 if the property holds in the repository in the current directory.
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
unset PYTHONPATH
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
HEAD = """import os
import sys
import warnings
sys.path.insert(0, os.getcwd())
warnings.filterwarnings("ignore")
import numpy as np
import jax
from jax import numpy as jnp
import src.jax_act as ja
from src.jax_act import ACT_Controller, ControllerBuilder, ACTViewer, TensorEditor
from src.jax_act.core import utils


"""


def tests(copy):
    out = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--tb=no", "--timeout=300",
                          "--continue-on-collection-errors", "-rA"], cwd=copy, env=ENV, capture_output=True, text=True).stdout
    return {l.split()[1] for l in out.splitlines() if l.startswith("PASSED")}


def demo(copy, d):
    r = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=copy, env=ENV, capture_output=True, text=True, timeout=280)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def main(argv):
    ns = {}
    exec(open(argv[0]).read(), ns)
    want = set(argv[1:])
    base = None
    for b in ns["BUGS"]:
        if want and b["id"] not in want:
            continue
        if not want and os.path.exists(os.path.join(HERE, "seeded", b["id"])):
            continue
        tmp = tempfile.mkdtemp(prefix="plant")
        copy, d = os.path.join(tmp, "repo"), os.path.join(tmp, b["id"])
        try:
            shutil.copytree("/repo", copy, symlinks=True)
            os.makedirs(d)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
            open(os.path.join(d, "demo.py"), "w").write(HEAD + b["demo"].strip() + "\n")
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            if base is None:
                base = tests(copy)
            rc0, out0 = demo(copy, d)
            ok = True
            for f, old, new in b["edits"]:
                p = os.path.join(copy, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "EDIT DOES NOT APPLY", s.count(old), repr(old[:80]))
                    ok = False
                    break
                open(p, "w").write(s.replace(old, new))
            if not ok:
                continue
            diff = subprocess.run(["git", "diff"], cwd=copy, capture_output=True, text=True).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            rc1, out1 = demo(copy, d)
            lost = base - tests(copy)
            good = rc0 == 0 and rc1 != 0 and not lost
            print(b["id"], "KEPT" if good else "REJECTED", "demo", rc0, rc1, "lost tests", sorted(lost)[:4], "of", len(base), flush=True)
            if rc0:
                print("   unpatched:", out0)
            if good:
                print("   ", out1.strip().splitlines()[-1][:200])
                dst = os.path.join(HERE, "seeded", b["id"])
                if os.path.isdir(dst):
                    shutil.rmtree(dst)
                shutil.copytree(d, dst)
        finally:
            shutil.rmtree(tmp)


if __name__ == "__main__":
    main(sys.argv[1:])
