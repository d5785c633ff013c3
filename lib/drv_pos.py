"""Checks single files with everything enabled; see specs/Positions.tla."""
import contextlib
import io
import json
import os
import signal
import sys

from loguru import logger

logger.remove()
from edulint import check_code  # noqa: E402

OPTS = [
    "config=full", "ignore-infile-config-for=all", "pylint=--enable=all", "pylint=--disable=R0801",
    "set-groups=enhancement,python-specific,complexity",
]  # fmt: skip


class TimeOut(BaseException):
    pass


def alarm(*_):
    raise TimeOut()


signal.signal(signal.SIGALRM, alarm)


def n1(x):
    return -1 if x is None else x


def plain_crash(path):
    """does Pylint alone give up on the file?"""
    from pylint.lint import Run

    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            Run(["--rcfile=/dev/null", "--enable=all", "--disable=R0801", "--output-format=json", path], exit=False)
    except BaseException as e:
        if isinstance(e, TimeOut):
            raise
        return True
    return '"F0002"' in out.getvalue() or '"astroid-error"' in out.getvalue()


def lens(data):
    try:
        text = data.decode("utf-8-sig")
    except UnicodeDecodeError:
        text = data.decode("latin-1")
    lines = io.StringIO(text, newline=None).read().split("\n")
    return [max(len(x), len(x.encode("utf8", "surrogatepass"))) for x in lines]


def run(job):
    data = job["content"].encode("latin-1")
    with open(job["name"], "wb") as f:
        f.write(data)
    res = {"end": "result", "gaveup": False, "plain": False, "lens": lens(data), "probs": [], "why": ""}
    signal.alarm(job.get("alarm", 120))
    try:
        r = check_code([job["name"]], OPTS)
        if r is None:
            res["end"] = "no-result"
        else:
            for p in r[1]:
                if p.code in ("F0002", "F0001", "F0010"):
                    res["gaveup"] = True
                    res["why"] = p.text
                else:
                    res["probs"].append(
                        {"code": p.code, "line": p.line, "col": p.column, "el": n1(p.end_line), "ec": n1(p.end_column)}
                    )
        if res["gaveup"]:
            res["plain"] = plain_crash(job["name"])
    except TimeOut:
        res["end"] = "no-end"
    except BaseException as e:
        res["end"], res["why"] = "raised", repr(e)[:300]
        if isinstance(e, RecursionError):
            try:
                res["plain"] = plain_crash(job["name"])
            except TimeOut:
                pass
    finally:
        signal.alarm(0)
    os.unlink(job["name"])
    return res


def main():
    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as o:
        for line in f:
            o.write(json.dumps(run(json.loads(line))) + "\n")
            o.flush()


main()
