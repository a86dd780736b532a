"""
Runs every check on behaviour preserving rewritings of the code under test; each has to be quiet.

usage: python tools/silence.py SPEC.py [name ...] [--tier quick] [--checks C01,C02]
"""
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ["C%02d" % i for i in range(1, 28)]


def main(argv):
    sys.path.insert(0, os.path.join(HERE, "tools"))
    import plant
    checks, names = ALL, []
    ns = {}
    exec(open(argv[0]).read(), ns)
    for a in argv[1:]:
        if a.startswith("--checks="):
            checks = a.split("=")[1].split(",")
        else:
            names.append(a)
    bad = 0
    for name, edits in ns["REFACTORS"]:
        if names and name not in names:
            continue
        tmp = tempfile.mkdtemp(prefix="silence")
        copy = os.path.join(tmp, "repo")
        try:
            shutil.copytree("/repo", copy, symlinks=True, ignore=shutil.ignore_patterns(".git"))
            base = plant.tests(copy)
            for file, old, new, *count in edits:
                p = os.path.join(copy, file)
                text = open(p).read()
                assert (text.count(old) == 1) if not count else text.count(old), (name, file, text.count(old), old)
                open(p, "w").write(text.replace(old, new))
            lost = base - plant.tests(copy)
            print(name, "tests lost:", sorted(lost), flush=True)
            for c in checks:
                t = time.time()
                r = subprocess.run([os.path.join(HERE, "bin/check"), c, "quick"], capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=copy, VERIF_EVIDENCE=os.path.join(tmp, "ev")))
                quiet = r.returncode == 0 and "VIOLATION" not in r.stdout
                bad += not quiet
                print("  %s %s %.0fs" % (c, "quiet" if quiet else "ALARM " + str(r.returncode), time.time() - t), flush=True)
                if not quiet:
                    print((r.stdout + r.stderr)[-1500:], flush=True)
        finally:
            shutil.rmtree(tmp)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
