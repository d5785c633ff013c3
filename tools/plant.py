"""Creates seeded/<id> from a description {property, edits: [[file, old, new]...], needs, breaks, demo} and confirms it in a scratch copy.

usage: plant.py FILE.py   (FILE.py defines ID, PROPERTY, EDITS, NEEDS, BREAKS, DEMO)"""
import json
import runpy
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

V = Path(__file__).resolve().parent.parent
SH = """#!/bin/bash
# exit 0: the property holds here; run with the repository as working directory
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"
export HOME="$d/home" XDG_DATA_HOME="$d/home/data" XDG_CACHE_HOME="$d/home/cache" XDG_STATE_HOME="$d/home/state" XDG_CONFIG_HOME="$d/home/config"
mkdir -p "$HOME" "$d/work"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" DEMO_DIR="$here" timeout 250 /opt/venv/bin/python - "$d/work" <"$here/demo.py"
rc=$?
rm -rf "$d"
exit $rc
"""
PRE = """import os, sys
os.chdir(sys.argv[1])
from loguru import logger
logger.remove()
def write(p, c):
    os.makedirs(os.path.dirname(os.path.abspath(p)), exist_ok=True)
    with open(p, "w", encoding="utf-8") as f:
        f.write(c)
"""


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)


def main(path, tests=True):
    s = runpy.run_path(path)
    sid = s["ID"]
    d = V / "seeded" / sid
    scratch = Path(tempfile.mkdtemp(prefix="plant"))
    try:
        repo = scratch / "repo"
        subprocess.run(["cp", "-a", "/repo", str(repo)], check=True)
        d.mkdir(parents=True, exist_ok=True)
        (d / "demo.sh").write_text(SH)
        (d / "demo.sh").chmod(0o755)
        (d / "demo.py").write_text(PRE + s["DEMO"])
        (d / "meta.json").write_text(
            json.dumps({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n"
        )
        r = sh(f"bash {d}/demo.sh", repo)
        if r.returncode != 0:
            print("demo fails on the unchanged tree", r.stdout[-1500:], r.stderr[-1500:])
            shutil.rmtree(d)
            return 1
        for f, old, new in s["EDITS"]:
            t = (repo / f).read_bytes()
            if b"\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert t.count(old.encode()) == 1, (f, t.count(old.encode()), old)
            (repo / f).write_bytes(t.replace(old.encode(), new.encode()))
        (d / "patch.diff").write_bytes(subprocess.run(["git", "diff"], cwd=repo, capture_output=True, check=True).stdout)
        r = sh(f"bash {d}/demo.sh", repo)
        if r.returncode == 0:
            print("demo passes with the change", r.stdout[-1500:])
            shutil.rmtree(d)
            return 1
        print("demo:", (r.stdout + r.stderr).strip().splitlines()[-1:])
        if tests:
            # what /opt/vp/test.sh does, in the copy
            (scratch / "x").mkdir()
            r = sh(
                f"XDG_DATA_HOME={scratch}/x XDG_CACHE_HOME={scratch}/x PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD timeout 900 "
                "/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 6 --tb=no -rfE tests",
                repo, 1000,
            )
            print(r.stdout[-300:])
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            failed = [l.split(" - ")[0].split(None, 1)[1] for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
            failed = [f.replace(".py::", "::").replace("/", ".", f.split("::")[0].count("/")) for f in failed]
            bad = [f for f in failed if f in stable or "[" not in f and any(x.startswith(f) for x in stable)]
            if bad or " passed" not in r.stdout:
                print("REJECTED: tests fail:", bad)
                shutil.rmtree(d)
                return 1
        print("kept", sid)
        return 0
    finally:
        shutil.rmtree(scratch)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], "--no-tests" not in sys.argv))
