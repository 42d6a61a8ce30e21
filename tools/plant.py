"""Build one planted bug from a spec and confirm it: python tools/plant.py SPEC.py

SPEC.py defines ID, PROPERTY, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO (python source; exit code by exception).
Applies the edits to /repo, makes patch.diff, runs the demo on both trees, the repository's tests and the check with the
change, undoes it. Keeps /verif/seeded/ID only if the demo discriminates and no stable test is lost."""

import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

REPO = Path(os.environ.get("PLANT_REPO", "/repo"))  # a scratch clone works too
SEEDED = Path("/verif/seeded")
LIB = Path("/verif/tools/demolib.py")


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


TESTS = "/opt/venv/bin/python -m pytest -q -n 4 -p no:cacheprovider --timeout=300 --tb=no --continue-on-collection-errors".split()


def lost():
    """how many of the stable tests do not pass in REPO"""
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    with tempfile.TemporaryDirectory() as w:
        x = f"{w}/junit.xml"
        sh(*TESTS, f"--basetemp={w}/tmp", "-o", "junit_family=xunit2", f"--junitxml={x}", cwd=REPO, env=dict(os.environ, PYTHONPATH=str(REPO / "src")))
        sh("python3", "/opt/vp/results.py", f"{w}/out.json", f"junit:{x}")
        return sorted(stable - set(json.load(open(f"{w}/out.json"))["passed"]))


def clean():
    sh("git", "-C", str(REPO), "checkout", "--", ".")


def main(spec):
    s = runpy.run_path(spec)
    if sh("git", "-C", str(REPO), "status", "--porcelain").stdout.strip():
        sys.exit("repo not clean")
    d = SEEDED / s["ID"]
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    (d / "demo.py").write_text(s["DEMO"].lstrip("\n"))
    shutil.copy(LIB, d / "demolib.py")
    (d / "demo.sh").write_text(
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
    )
    os.chmod(d / "demo.sh", 0o755)
    (d / "meta.json").write_text(
        json.dumps({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n"
    )
    ok = False
    try:
        r0 = sh("bash", str(d / "demo.sh"), cwd=REPO)
        for f, old, new in s["EDITS"]:
            p = REPO / "src" / f
            t = p.read_text()
            if t.count(old) != 1:
                print(s["ID"], "edit matches", t.count(old), "times in", f)
                return 1
            p.write_text(t.replace(old, new))
        (d / "patch.diff").write_text(sh("git", "-C", str(REPO), "diff").stdout)
        r1 = sh("bash", str(d / "demo.sh"), cwd=REPO)
        print(s["ID"], "demo clean", r0.returncode, "patched", r1.returncode)
        if r0.returncode:
            print(r0.stdout[-800:], r0.stderr[-1500:])
        if r1.returncode == 0:
            print("demo passes with patch", r1.stdout[-500:])
        elif "--v" in sys.argv:
            print(r1.stderr[-600:])
        if r0.returncode or not r1.returncode:
            return 1
        if "--notest" not in sys.argv:
            t = lost()
            print("   tests lost:", len(t), t[:3])
            if t:
                return 1
        ok = True
        r = sh("./check", s["PROPERTY"], "quick", cwd="/verif", env=dict(os.environ, VERIF_SEED="1", VF_REPO_SRC=str(REPO / "src")))
        lines = [x for x in r.stdout.splitlines() if "VIOLATION" in x or "KNOWN" in x or "rule" in x]
        print("   check", s["PROPERTY"], "exit", r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED", lines[:1])
    finally:
        clean()
        if not ok and "--keep" not in sys.argv:
            shutil.rmtree(d, ignore_errors=True)
    return 0


sys.exit(main(sys.argv[1]))
