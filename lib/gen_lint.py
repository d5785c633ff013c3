"""Random checks for specs/LintTrace.tla: files, arguments in any spelling, options, messages."""
import os
import random

import gen_config

OVER = {
    "C0104": ["R6307", "R6609", "F841", "W0613"], "C0103": ["R6307", "R6609", "F841", "W0613"], "E225": ["R6609"],
    "R1705": ["R1703", "R6201"], "R6610": ["R6608"], "W0107": ["W0101"], "C0201": ["C0206"],
    "R6216": ["R6211", "R6212", "R6214", "R6215"], "R6213": ["R6216"], "R6221": ["R6222"], "R6218": ["R6222"],
}  # fmt: skip
CODES = sorted(set(OVER) | {c for v in OVER.values() for c in v} | {"F401", "E712", "W0622", "C0325", "R6607", "W0612", "E501"})
FLAKE = {"F841", "E225", "F401", "E712", "E501", "W291"}
NAMES = ["i", "j", "x", "I", "foo", "ij", "l", "_", "é", "sum", "len", "su", "Len", "id"]
EXPRS = ["a * a", "a * a * a", "s.x * s.x * s.x", "1.5 * x * x * x", "a + a + a", "a.b + a.b", "f(*args) + f(*args)"]
PATHS = ["/R/w/a.py", "/R/w/b.py", "/R/w/sub/a.py", "/R/w/sub/deep/q.py", "/R/other/c.py", "/R/w/ab.py", "/R/w/B.py", "/R/w/sub/z.py", "/R/other/with space.py"]


def text(r, code):
    n = r.choice(NAMES)
    if code == "C0104":
        return f'Disallowed name "{n}"'
    if code == "W0622":
        return f"Redefining built-in '{n}'"
    if code == "F401":
        return "'%s' imported but unused" % r.choice(["ib111", "ib111.week_01", "ib111.week_02.*", "os", "os.path as ib111", "xib111", n])
    if code == "C0325":
        return "Unnecessary parens after %r keyword" % r.choice(["not", "if", "return", "in", "while"])
    if code == "R6607":
        return f"Use exponentiation instead of repeated muliplication in {r.choice(EXPRS)}."
    if code == "E712":
        b = r.choice(["True", "False"])
        return f"comparison to {b} should be 'if cond is {b}:' or 'if {'not ' if b == 'False' else ''}cond:'"
    return r.choice(["plain text", "two\nlines", 'with "quotes" and \\ {} %s', "ěšč ✓", ""])


def message(r, files, codes=None):
    code = r.choice(codes or CODES)
    if r.random() < 0.1:
        code = r.choice(["X1234", "F401", "E712", "C0104", "R6607"])
    src = "flake8" if code in FLAKE else "pylint"
    if r.random() < 0.05:
        src = "flake8" if src == "pylint" else "pylint"  # the same code from the other linter is another message
        t = "other"
    else:
        t = text(r, code)
    f = r.choice(files)
    line = r.choice([1, 1, 2, 2, 3, 10, 11, 100])
    end = r.random() < 0.5 and src == "pylint"
    return {
        "src": src, "file": f, "line": line, "col": r.choice([0, 1, 1, 4, 12]), "code": code,
        "symbol": "sym-" + code.lower() if src == "pylint" else None, "text": t,
        "el": line + r.choice([0, 1]) if end else -1, "ec": r.choice([0, 7]) if end else -1,
    }  # fmt: skip


def spell(r, p, cwd, kinds=("rel", "abs", "dot", "up")):
    k = r.choice(kinds)
    rel = os.path.relpath(p, cwd)
    if k == "abs":
        return p
    if k == "absdot":
        return os.path.dirname(p) + "/./" + os.path.basename(p)
    if k == "dot":
        return "./" + rel
    if k == "up" and cwd != "/R":
        return "../" + os.path.relpath(p, os.path.dirname(cwd))
    if k == "slash":
        return rel + "/"
    return rel


def options(r):
    res = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        res.append(
            r.choice(
                [
                    {"n": "allowed-onechar-names", "h": True, "v": r.choice(["", "ij", "x", "I_é"])},
                    {"n": "disallowed-builtin-names", "h": True, "v": r.choice(["", "sum,len", "id", "Len"])},
                    {"n": "set-groups", "h": True, "v": r.choice(["enhancement", "python-specific", "", "enhancement,complexity"])},
                    {"n": "no-flake8", "h": False, "v": ""},
                    {"n": "pylint", "h": True, "v": r.choice(["--enable=C0104", "--disable=all", "--max-args=3", "--enable=F841"])},
                    {"n": "flake8", "h": True, "v": r.choice(["--extend-select=F841", "--select=E225,F401"])},
                ]
            )
        )
    return res


def job(seed, faults=0.0, cli=False, links=0.15, codes=None, overlap=0.15, big=False):
    r = random.Random(seed)
    cwd = r.choice(["/R/w", "/R/w", "/R", "/R/w/sub"])
    paths = r.sample(PATHS, r.choice([1, 2, 3, 4, 5]))
    lns = []
    common = options(r) if r.random() < 0.5 else None
    files = []
    for p in paths:
        o = common if common is not None and r.random() < 0.6 else options(r)
        lines = [{"k": "opt", "t": [t], "pre": "# edulint: "} for t in o]
        files.append({"p": p, "py": True, "lines": lines + [{"k": "code", "raw": "x = 1", "t": []}]})
    if r.random() < 0.2:
        files.append({"p": "/R/w/sub/readme.md", "py": False, "lines": [{"k": "code", "raw": "x", "t": []}]})
    # the arguments
    argv = []
    for f in files:
        p = f["p"]
        if not f["py"] or any(p == a["abs"] or p.startswith(a["abs"] + "/") for a in argv):
            continue
        if r.random() < 0.35:
            p = os.path.dirname(p)
            argv = [a for a in argv if not (a["abs"] + "/").startswith(p + "/")] if r.random() > overlap else argv
        argv.append(arg(r, p, cwd))
    r.shuffle(argv)
    if r.random() < overlap:
        argv.append(dict(r.choice(argv)) if r.random() < 0.5 else arg(r, r.choice(argv)["abs"], cwd))
    reached = [f["p"] for f in files if f["py"]]
    if links and r.random() < links:
        # the same files through a symbolic link to their directory
        lns = [["/R/lnk", "/R/w"]]
        sub = [f for f in files if f["p"].startswith("/R/w/")]
        if sub:
            old = r.choice(sub)
            new = "/R/lnk" + old["p"][4:]
            argv = [arg(r, new, cwd, ("rel", "abs"))]
            files.append({"p": new, "py": old["py"], "lines": old["lines"], "alias": True})
            reached = [new]
    raw = [message(r, reached, codes) for _ in range(r.choice([0, 1, 2, 4, 8, 20, 60 if big else 8]))]
    if r.random() < 0.15:
        # Pylint may talk about modules that the checked ones import
        m = message(r, ["/R/elsewhere/lib.py"], codes)
        if m["src"] == "pylint":
            raw.append(dict(m, foreign=True))
    if r.random() < 0.3 and raw:
        raw.append(dict(r.choice(raw)))
    # the order in which a linter reports
    r.shuffle(raw)
    case = {"cwd": cwd, "cmd": [{"n": "config", "h": True, "v": "empty"}] * (r.random() < 0.8) + (options(r) if r.random() < 0.4 else []),
            "files": files, "cfgs": [], "argv": argv, "links": lns}  # fmt: skip
    j = {"case": case, "raw": raw, "cli": cli}
    if r.random() < faults:
        j["faults"] = [r.choice(["pylint32", "pylint-raises", "pylint-garbage", "flake8-2", "flake8-garbage", "flake8-raises", "pylint-stderr", "flake8-stderr"])]
    return j


def arg(r, p, cwd, kinds=("rel", "rel", "abs", "dot", "up", "absdot")):
    s = spell(r, p, cwd, kinds)
    return {"abs": p, "rel": not s.startswith("/"), "s": s}
