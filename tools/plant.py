"""Development helper: confirm a planted bug and store it under seeded/.

    python3 tools/plant.py DEFS.py [ID ...]

DEFS.py defines BUGS = {id: dict(property, needs, breaks, edits=[(file, old, new)],
demo=python source)}.  Each bug is applied to a scratch copy of /repo; kept only
if the demonstration passes on the unchanged tree, fails on the changed one and
the test suite still passes.
"""

import json
import os
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))
ENV = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
DEMO_SH = """#!/bin/bash
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)


def main():
    defs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or list(defs)
    for bid in ids:
        b = defs[bid]
        wt = f"/tmp/plant-{bid}"
        shutil.rmtree(wt, ignore_errors=True)
        sh(["cp", "-a", "/repo", wt])
        try:
            bad = None
            for f, old, new in b["edits"]:
                p = os.path.join(wt, "src/skfolio", f)
                s = open(p).read()
                if s.count(old) != 1:
                    bad = f"pattern occurs {s.count(old)} times in {f}"
                    break
                open(p, "w").write(s.replace(old, new))
            if bad:
                print(bid, "SKIP", bad)
                continue
            d = os.path.join(VERIF, "seeded", bid)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(sh(["git", "diff"], cwd=wt).stdout)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            r0 = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo", timeout=300)
            r1 = sh(["bash", os.path.join(d, "demo.sh")], cwd=wt, timeout=300)
            ok = r0.returncode == 0 and r1.returncode != 0
            tests = ""
            if ok:
                env = dict(ENV, PYTHONPATH=wt + "/src", HOME=wt + "/.home")
                os.makedirs(wt + "/.home", exist_ok=True)
                t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "7", "--timeout=600", *b.get("tests", ["tests"]), "--ignore=tests/test_dataset", "-rfE", "--no-header", "--tb=no"], cwd=wt, env=env, timeout=1800)
                failed = [x.split(" - ")[0].split()[-1] for x in t.stdout.splitlines() if x.startswith(("FAILED", "ERROR"))]
                stable = set(BASE["stable"])

                def key(x):
                    p = x.split("::")
                    return "::".join([".".join([p[0][:-3].replace("/", "."), *p[1:-1]]), p[-1]])

                broken = [x for x in failed if key(x) in stable]
                ran = "passed" in t.stdout
                print(bid, "tests:", "ok" if ran and not broken else f"BROKEN {broken[:5]} {t.stdout[-200:] if not ran else ''}")
                ok = ran and not broken
            print(bid, "demo unchanged", r0.returncode, "changed", r1.returncode, (r0.stdout + r0.stderr)[-200:] if r0.returncode else "", (r1.stdout + r1.stderr).strip()[-160:])
            if not ok:
                shutil.rmtree(d)
        finally:
            shutil.rmtree(wt, ignore_errors=True)


main()
