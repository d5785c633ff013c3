"""Runs whole checks with stand-ins for (or recordings of) the linters; see specs/Lint.tla."""
import io
import json
import os
import runpy
import shlex
import sys

import pylint.lint
import pylint.lint.run
import flake8.main.application as fapp

JOB = {}  # what the linters are to say in the current job
CALLS = []
RAWS = []
MAT = None

RealRun = pylint.lint.Run
RealApp = fapp.Application


def split(argv):
    opts = [a for a in argv if a.startswith("-")]
    files = [a for a in argv if not a.startswith("-")]
    return opts, files


def pyfiles(files):
    from drv_config import pyfiles as pf

    res = []
    for f in files:
        res += [os.path.abspath(x) for x in pf(f)]
    return res


def fault(kind):
    return kind in JOB.get("faults", [])


def said(src, files):
    """messages of linter src for the given files, with real paths"""
    fs = set(files)
    return [m for m in JOB["raw"] if m["src"] == src and (MAT.real(m["file"]) in fs or m.get("foreign"))]


def note(src, path, line, col, code, symbol, text, el, ec):
    RAWS.append(
        {"src": src, "file": MAT.virt(os.path.abspath(path)), "line": line, "col": col, "code": code,
         "symbol": symbol, "text": text, "el": n1(el), "ec": n1(ec)}
    )  # fmt: skip


def n1(x):
    return -1 if x is None else x


def un(x):
    return None if x == -1 else x


def norel(p):
    cwd = os.getcwd() + os.sep
    return p[len(cwd) :] if p.startswith(cwd) else p


class Run:
    """stands in for pylint.lint.Run"""

    def __init__(self, args, reporter=None, exit=True, **kw):
        opts, files = split(args)
        opts = [o for o in opts if o != "--recursive=y"]
        CALLS.append({"linter": "pylint", "args": MAT.virt(opts), "files": MAT.virt(pyfiles(files))})
        if fault("pylint32"):
            print("pylint: error: bad", file=sys.stderr)
            raise SystemExit(32)
        if fault("pylint-raises"):
            raise RuntimeError("planted")
        if fault("pylint-stderr"):
            print("noise", file=sys.stderr)
        if fault("pylint-garbage"):
            reporter.out.write("[{not json")
            return
        if JOB.get("raw") is None:
            # the real Pylint through a reporter that also tells us
            from pylint.reporters.json_reporter import JSON2Reporter

            RealRun(args, reporter=reporter, exit=exit, **kw)
            for m in json.loads(reporter.out.getvalue())["messages"]:
                note("pylint", m["path"], m["line"], m["column"], m["messageId"], m["symbol"], m["message"], m["endLine"], m["endColumn"])
            return
        msgs = []
        for m in said("pylint", pyfiles(files)):
            path = MAT.real(m["file"])
            note("pylint", path, m["line"], m["col"], m["code"], m["symbol"], m["text"], m["el"], m["ec"])
            msgs.append(
                {"type": "convention", "symbol": m["symbol"], "message": m["text"], "messageId": m["code"],
                 "confidence": "UNDEFINED", "module": "m", "obj": "", "line": m["line"], "column": m["col"],
                 "endLine": un(m["el"]), "endColumn": un(m["ec"]), "path": norel(path), "absolutePath": path}
            )  # fmt: skip
        reporter.out.write(json.dumps({"messages": msgs, "statistics": {}}))


class App(RealApp):
    def _run(self, argv):
        opts, files = split(argv)
        opts = [o for o in opts if o != "--format=json"]
        CALLS.append({"linter": "flake8", "args": MAT.virt(opts), "files": MAT.virt(pyfiles(files))})
        if fault("flake8-2"):
            raise SystemExit(2)
        if fault("flake8-raises"):
            raise RuntimeError("planted")
        if fault("flake8-garbage"):
            print("{not json")
            return
        if fault("flake8-stderr"):
            print("noise", file=sys.stderr)
        if JOB.get("raw") is None:
            pos = sys.stdout.tell() if isinstance(sys.stdout, io.StringIO) else 0
            RealApp._run(self, argv)
            for ms in json.loads(sys.stdout.getvalue()[pos:]).values():
                for m in ms:
                    note("flake8", m["filename"], m["line_number"], m["column_number"], m["code"], None, m["text"], None, None)
            return
        out = {}
        for f in files:
            for path in pyfiles([f]):
                out.setdefault(path, [])
        for m in said("flake8", pyfiles(files)):
            path = MAT.real(m["file"])
            note("flake8", path, m["line"], m["col"], m["code"], None, m["text"], None, None)
            # the way flake8 names files: as they were passed
            shown = next(
                (f if not os.path.isdir(f) else os.path.join(f, os.path.relpath(path, f)))
                for f in files
                if os.path.abspath(f) == path or (path + "/").startswith(os.path.abspath(f) + "/")
            )
            out[path].append(
                {"code": m["code"], "filename": shown, "line_number": m["line"], "column_number": m["col"],
                 "text": m["text"], "physical_line": "x"}
            )  # fmt: skip
        print(json.dumps({k: v for k, v in out.items()}))
        if any(out.values()):
            # flake8 itself sets a result code; _run leaves that to exit()
            self.result_count = 1

    def run(self, argv):
        self._run(argv)


pylint.lint.Run = Run
pylint.lint.run.Run = Run
fapp.Application = App

import drv_config  # noqa: E402  (imports edulint)
from edulint import check_code  # noqa: E402
import loguru  # noqa: E402


def problem(p, m):
    return {
        "src": str(p.source), "path": m.virt(p.path), "file": m.virt(os.path.abspath(p.path)), "line": p.line,
        "col": p.column, "code": p.code, "symbol": p.symbol, "text": p.text, "el": n1(p.end_line), "ec": n1(p.end_column),
        "by": p.enabled_by,
    }  # fmt: skip


def cli(argv):
    out, err = io.StringIO(), io.StringIO()
    o, e, a = sys.stdout, sys.stderr, sys.argv
    sys.stdout, sys.stderr = out, err
    sys.argv = ["edulint"] + argv
    rc = None
    try:
        try:
            runpy.run_module("edulint", run_name="__main__", alter_sys=False)
            rc = 0
        except SystemExit as x:
            rc = 0 if x.code is None else x.code if isinstance(x.code, int) else 1
        except BaseException as x:
            rc = 1  # an uncaught exception ends Python with 1
            err.write(repr(x))
    finally:
        sys.stdout, sys.stderr, sys.argv = o, e, a
        loguru.logger.remove()
        loguru.logger.add(lambda m: drv_config.WARN.append(str(m)), level="WARNING", format="{message}")
    return rc, out.getvalue(), err.getvalue()


def run(job):
    global JOB, MAT
    case = job["case"]
    m = MAT = drv_config.Mat()
    JOB = job
    CALLS.clear()
    RAWS.clear()
    try:
        drv_config.materialise(m, dict(case, files=[f for f in case["files"] if not f.get("alias")]))
        for ln in case.get("links", []):
            os.makedirs(os.path.dirname(m.real(ln[0])), exist_ok=True)
            os.symlink(m.real(ln[1]), m.real(ln[0]))
        args = [m.real(a["s"]) for a in case["argv"]]
        cmd = [shlex.quote(c) for c in m.real(drv_config.cmd_tokens(case))]
        obs = {"problems": [], "failed": False, "raised": False, "err": ""}
        before = (sys.stdout, sys.stderr, os.getcwd())
        try:
            r = check_code(args, cmd)
            obs["failed"] = r is None
            if r is not None:
                obs["problems"] = [problem(p, m) for p in r[1]]
        except BaseException as e:
            obs["raised"] = True
            obs["err"] = repr(e)[:300]
        obs["left"] = before == (sys.stdout, sys.stderr, os.getcwd())
        calls, raws = list(CALLS), list(RAWS)
        if job.get("cli"):
            flags = ["--disable-version-check", "--disable-explanations-update"]
            opts = []
            for c in cmd:
                opts += ["-o", c]
            rc, out, err = cli(["check"] + flags + opts + args)
            jrc, jout, jerr = cli(["check", "--json"] + flags + opts + args)
            c = {"rc": rc, "out": m.virt(out), "jrc": jrc, "jok": False, "json": [], "jout": m.virt(jout), "err": err[-300:]}
            try:
                d = json.loads(jout)
                # "not set" is not the same as missing
                c["json"] = [
                    {"src": p["source"], "path": m.virt(p["path"]), "line": p["line"], "col": p["column"], "code": p["code"],
                     "symbol": p["symbol"], "text": p["text"], "el": n1(p["end_line"]), "ec": n1(p["end_column"]), "by": p["enabled_by"]}
                    for p in d["problems"]
                ]  # fmt: skip
                c["jok"] = isinstance(d["configs"], list)
            except Exception as e:
                c["err"] += repr(e)
            obs["cli"] = c
        return {"obs": obs, "calls": calls, "raws": raws}
    finally:
        m.close()


if __name__ == "__main__":
    with open(sys.argv[1]) as i, open(sys.argv[2], "w") as o:
        for line in i:
            o.write(json.dumps(run(json.loads(line))) + "\n")
            o.flush()
