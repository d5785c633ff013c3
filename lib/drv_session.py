"""Runs sequences of checks in one process and the same checks in fresh processes (specs/Session.tla)."""
import json
import os
import re
import shutil
import sys
import tempfile

from loguru import logger

logger.remove()
from edulint import check_code  # noqa: E402

ROOT = os.path.realpath(tempfile.mkdtemp(prefix="ses", dir=os.getcwd()))
MEMO = {}


def write(files):
    for p, c in files.items():
        p = os.path.join(ROOT, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p, encoding="utf-8", newline="").read() != c:
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(c)


def forget():
    for x in os.listdir(ROOT):
        p = os.path.join(ROOT, x)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)


def unmodule(text):
    """Pylint shows a module under a name that depends on what else it was given"""
    return re.sub(r"\((?:\w+\.)*(\w+), line", r"(\1, line", text)


def check(files, opts):
    before = (sys.stdout, sys.stderr, os.getcwd())
    try:
        r = check_code(list(files), list(opts))
        if r is None:
            found = ["none"]
        else:
            found = [
                "|".join(str(v) for v in (p.source, p.path, p.line, p.column, p.code, p.symbol, p.end_line, p.end_column, p.enabled_by, unmodule(p.text)))
                for p in r[1]
            ]  # fmt: skip
    except BaseException as e:
        found = ["raised " + repr(e)[:200]]
    return found, before == (sys.stdout, sys.stderr, os.getcwd())


def fail(op):
    """a check during which a linter gives up"""
    how = op.get("how", "option")
    if how == "option":
        check(["a.py"], ["config=empty", "pylint=--no-such-option=1 --enable=all"])
        check(["a.py"], ["config=empty", "pylint=--no-such-option=1"])
    elif how == "raise":
        import pylint.lint

        orig = pylint.lint.PyLinter._check_astroid_module

        def bad(self, *a, **k):
            raise KeyError("planted")

        pylint.lint.PyLinter._check_astroid_module = bad
        try:
            check(["a.py", "b.py"], ["config=full"])
        finally:
            pylint.lint.PyLinter._check_astroid_module = orig
    elif how == "missing":
        check(["a.py", "nothere.py"], ["config=full"])
    else:
        check(["a.py"], ["config=nothere.toml"])


def forked(fn):
    """the value of fn() computed in a child process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = json.dumps(fn()).encode()
            while data:
                data = data[os.write(w, data) :]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        buf += x
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(buf)


def fresh(disk, files, opts):
    key = json.dumps([disk, files, opts], sort_keys=True)
    if key not in MEMO:
        if len(MEMO) > 3000:
            MEMO.clear()
        write(disk)
        MEMO[key] = forked(lambda: check(files, opts)[0])
    return MEMO[key]


def run(job):
    os.chdir(ROOT)
    forget()
    write(job["disk"])
    opts = job["opts"]
    disk = dict(job["disk"])
    steps = []
    for op in job["hist"]:
        if op["op"] == "edit":
            disk[op["p"]] = op["c"]
        elif op["op"] == "check":
            o = opts[op["o"] - 1]
            ones = []
            if job.get("ones") and len(op["fs"]) > 1:
                ones = [fresh(disk, [f], o) for f in op["fs"]]
            steps.append(
                {"key": json.dumps([disk, op["fs"], o], sort_keys=True), "fresh": fresh(disk, op["fs"], o), "ones": ones}
            )
    forget()
    write(job["disk"])

    def session():
        res = []
        d = dict(job["disk"])
        for op in job["hist"]:
            if op["op"] == "edit":
                d[op["p"]] = op["c"]
                write({op["p"]: op["c"]})
            elif op["op"] == "check":
                res.append(check(op["fs"], opts[op["o"] - 1]))
            else:
                fail(op)
        return res

    if job.get("alone"):
        got = [[s["fresh"], True] for s in steps]
    else:
        got = forked(session)
    for s, (found, left) in zip(steps, got):
        s["found"], s["left"] = found, left
    return {"steps": steps}


if __name__ == "__main__":
    with open(sys.argv[1]) as i, open(sys.argv[2], "w") as o:
        for line in i:
            o.write(json.dumps(run(json.loads(line))) + "\n")
            o.flush()
    os.chdir("/")
    shutil.rmtree(ROOT)
