"""Runs the real configuration code on materialised cases (see specs/Config.tla)."""
import http.server
import json
import os
import shutil
import sys
import tempfile
import threading

from loguru import logger

logger.remove()
WARN = []
logger.add(lambda m: WARN.append(str(m)), level="WARNING", format="{message}")

from edulint.config.config import get_config_many, get_config_one  # noqa
from edulint.options import Option  # noqa

V = "/R"  # virtual root used in cases
REMOTE = {}


class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        body = REMOTE.get(self.path)
        self.send_response(200 if body is not None else 404)
        self.end_headers()
        self.wfile.write((body or "").encode())

    def log_message(self, *a):
        pass


SERVER = None


def server():
    global SERVER
    if SERVER is None:
        SERVER = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        threading.Thread(target=SERVER.serve_forever, daemon=True).start()
    return f"http://127.0.0.1:{SERVER.server_port}"


class Mat:
    """virtual <-> real names"""

    n = 0

    def __init__(self, base=None):
        Mat.n += 1
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="cfg", dir=base))
        self.url = None
        self.pre = f"/{os.getpid()}-{Mat.n}"

    def real(self, s):
        if isinstance(s, str):
            s = s.replace(V, self.root)
            if "http://H/" in s:
                s = s.replace("http://H", server() + self.pre)
            return s
        if isinstance(s, list):
            return [self.real(x) for x in s]
        if isinstance(s, dict):
            return {self.real(k): self.real(v) for k, v in s.items()}
        return s

    def virt(self, s):
        if isinstance(s, str):
            s = s.replace(self.root, V)
            if SERVER is not None:
                s = s.replace(server() + self.pre, "http://H")
            return s
        if isinstance(s, list):
            return [self.virt(x) for x in s]
        return s

    def close(self):
        os.chdir("/tmp")
        shutil.rmtree(self.root)


def toml_str(s):
    return json.dumps(s, ensure_ascii=False)


def toml_key(k):
    return k if k and all(c.isalnum() and ord(c) < 128 or c in "-_" for c in k) else toml_str(k)


def toml_val(v):
    t = v["t"]
    if t == "s":
        return toml_str(v["s"])
    if t == "i":
        return {"True": "true", "False": "false"}.get(v["s"], v["s"])
    if t == "l":
        return "[" + ", ".join(toml_str(x) for x in v["l"]) + "]"
    if t == "x":
        return v["raw"]
    return "{" + ", ".join(f"{toml_key(e['k'])} = {toml_val(e['v'])}" for e in v["d"]) + "}"


def render_cfg(c):
    if not c["ok"]:
        return c["raw"]
    out = []
    tail = []
    for e in c["e"]:
        if c.get("style") == "table" and e["v"]["t"] == "d" and e is c["e"][-1]:
            tail.append(f"[{toml_key(e['k'])}]")
            for x in e["v"]["d"]:
                tail.append(f"{toml_key(x['k'])} = {toml_val(x['v'])}")
        else:
            out.append(f"{toml_key(e['k'])} = {toml_val(e['v'])}")
    return "\n".join(out + tail) + "\n"


def render_tok(t, quote):
    s = t["n"] + ("=" + t["v"] if t["h"] else "")
    if quote == 1 and t["h"] and " " not in t["n"]:
        return t["n"] + '="' + t["v"] + '"'
    if quote == 2 and "'" not in s:
        return "'" + s + "'"
    if any(c in s for c in " \t#;&|<>*?()$`\\\"'") or s == "":
        return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
    return s


def render_line(ln):
    k = ln["k"]
    if k == "opt":
        return ln.get("pre", "# edulint: ") + " ".join(
            render_tok(t, ln.get("q", 0)) for t in ln["t"]
        )
    return ln["raw"]


def materialise(m, case):
    for f in case["files"]:
        p = m.real(f["p"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as o:
            o.write(m.real("\n".join(render_line(x) for x in f["lines"]) + "\n"))
    for c in case["cfgs"]:
        if c.get("packaged"):
            continue
        if c["p"].startswith("http://H/"):
            server()
            REMOTE[m.pre + c["p"][len("http://H") :]] = m.real(render_cfg(c))
            continue
        p = m.real(c["p"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as o:
            o.write(m.real(render_cfg(c)))
    d = m.real(case["cwd"])
    os.makedirs(d, exist_ok=True)
    os.chdir(d)


def norm(v):
    if v is None:
        return []
    if v is True or v is False:
        return ["true" if v else "false"]
    if isinstance(v, (list, tuple)):
        return [str(x) for x in v]
    return [str(v)]


def pyfiles(p):
    if os.path.isdir(p):
        return [
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs if f.lower().endswith(".py")
        ]
    return [p]


def entry(m, paths, cfg, lang):
    files = [x for p in paths for x in pyfiles(p)]
    return {
        "files": [m.virt(os.path.abspath(x)) for x in files],
        "val": [
            [
                o.to_name(),
                [
                    os.path.normpath(x) if o.to_name().endswith("-file") and x.startswith("/") else x
                    for x in m.virt(norm(cfg[o]))
                ],
            ]
            for o in Option
        ],
        "lang": sorted([k, v.translation] for k, v in (lang or {}).items()),
    }


def cmd_tokens(case):
    return [t["n"] + ("=" + t["v"] if t["h"] else "") for t in case["cmd"]]


def run(job):
    case = job["case"]
    m = Mat()
    WARN.clear()
    try:
        materialise(m, case)
        if job.get("rel"):
            args = [os.path.relpath(m.real(a)) for a in case["args"]]
        else:
            args = [m.real(a) for a in case["args"]]
        cmd = m.real(cmd_tokens(case))
        obs = {"ok": True, "entries": [], "warned": False, "failed": False, "err": ""}
        try:
            if job.get("one"):
                r = get_config_one(args[0], cmd)
                res = [] if r is None else [([args[0]], r[0], r[1])]
            else:
                res = get_config_many(args, cmd)
            obs["entries"] = [entry(m, *e) for e in res]
            obs["warned"] = len(WARN) > 0
            obs["warnings"] = [m.virt(w.strip())[:200] for w in WARN[:5]]
            if job.get("problems"):
                from edulint import check_code
                import shlex

                r = check_code(args, [shlex.quote(c) for c in cmd])
                obs["failed"] = r is None
                obs["raws"] = [
                    m.real("\n".join(render_line(x) for x in f["lines"])).split("\n")
                    for f in case["files"]
                ]
                obs["edl"] = [
                    {"file": m.virt(os.path.abspath(p.path)), "line": p.line, "col": p.column}
                    for p in (r[1] if r is not None else [])
                    if p.code == "EDL001"
                ]
                obs["problems"] = [
                    {
                        "file": m.virt(os.path.abspath(p.path)),
                        "code": p.code,
                        "symbol": p.symbol or "",
                        "by": p.enabled_by if p.enabled_by is not None else "<null>",
                    }
                    for p in (r[1] if r is not None else [])
                ]
            if job.get("check"):
                from edulint import check_code
                import shlex

                obs["failed"] = check_code(args, [shlex.quote(c) for c in cmd]) is None
        except BaseException as e:
            obs["ok"] = False
            obs["err"] = repr(e)[:300]
        return obs
    finally:
        m.close()


if __name__ == "__main__":
    with open(sys.argv[1]) as i, open(sys.argv[2], "w") as o:
        for line in i:
            o.write(json.dumps(run(json.loads(line))) + "\n")
            o.flush()
