"""
Runs checks against the planted bugs, each in a scratch copy of /repo.
usage: python tools/try_seeded.py [--all-checks] [id ...]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(argv):
    allc = "--all-checks" in argv
    ids = [a for a in argv if not a.startswith("-")] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        tmp = tempfile.mkdtemp(prefix="seed")
        copy = os.path.join(tmp, "repo")
        try:
            shutil.copytree("/repo", copy, symlinks=True)
            subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=copy, check=True)
            props = ["C%02d" % k for k in range(1, 28)] if allc else [prop]
            res = []
            for p in props:
                t0 = time.time()
                r = subprocess.run([os.path.join(HERE, "bin", "check"), p, "quick"], capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=copy, VERIF_EVIDENCE=os.path.join(tmp, "evidence")))
                hit = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
                res.append("%s:%s(%.0fs)" % (p, "caught" if hit else "MISSED" if r.returncode == 0 else "ERROR%d" % r.returncode,
                                             time.time() - t0))
            if allc:
                print(i, prop, "caught by", [x.split(":")[0] for x in res if "caught" in x],
                      "errors", [x for x in res if "ERROR" in x], flush=True)
            else:
                print(i, *res, flush=True)
                if "caught" in res[0]:
                    print("     ", [l for l in r.stdout.splitlines() if l.startswith("  ")][:1])
        finally:
            shutil.rmtree(tmp)


if __name__ == "__main__":
    main(sys.argv[1:])
