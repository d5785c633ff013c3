"""Runs histories of operations on EduLint's stored state: every operation in its own process, with
the clock, the network and faults under control.  See specs/RemoteCache.tla, Versions.tla,
Explanations.tla.

The network is replaced below `requests` (HTTPAdapter.send), the clock is time.time.  A crash is
os._exit at the k-th source line of EduLint that the operation executes, lack of disk space is
RLIMIT_FSIZE, and two processes are interleaved line by line.
"""
import io
import json
import os
import resource
import shutil
import sys
import tempfile
import threading
import time

import requests
from loguru import logger

logger.remove()

import edulint  # noqa
import edulint.edulint  # noqa
import edulint.explanations  # noqa
import edulint.versions.version_checker as vc  # noqa
from edulint.config.file_config import load_toml_file  # noqa
from edulint.version import version as EDV  # noqa

ROOT = os.path.dirname(os.path.abspath(edulint.__file__)) + os.sep
PAD = 700


def body(kind, tag):
    """a document whose first and last key agree, long enough to be torn"""
    if kind == "remote":
        return f'v = "{tag}"\n' + "".join(f'k{i} = "{tag}-{i}"\n' for i in range(PAD)) + f'end = "{tag}"\n'
    return f'[AAA]\nwhy = "{tag}"\n' + "".join(f'[k{i}]\nwhy = "{tag}"\n' for i in range(PAD)) + f'[ZZZ]\nwhy = "{tag}"\n'


class World:
    """what the child processes see"""

    def __init__(self):
        self.now = 1_700_000_000
        self.srv = {}
        self.mode = "ok"
        self.v = 0
        self.releases = {}
        self.local = "4.3.1"
        self.kind = ""


REQS = [0]


def install(w):
    time.time = lambda: float(w.now)

    def send(self, request, **kw):
        REQS[0] += 1
        url = request.url
        if w.kind == "remote":
            mode, tag = w.srv.get(url, ("404", ""))
            text = body("remote", tag)
        elif w.kind == "version":
            mode, text = w.mode, json.dumps({"releases": w.releases})
        else:
            mode, text = w.mode, body("expl", str(w.v))
        if mode == "down":
            raise requests.exceptions.ConnectionError("down")
        if mode == "timeout":
            raise requests.exceptions.ReadTimeout("timeout")
        if mode == "partial":
            raise requests.exceptions.ChunkedEncodingError("incomplete")
        r = requests.Response()
        r.url = url
        r.request = request
        r.encoding = "utf-8"
        r.status_code = {"ok": 200, "garbage": 200, "404": 404, "500": 500, "503": 503}[mode]
        if mode == "garbage":
            text = "<html>[[["
        elif mode != "ok":
            text = body("remote", "error page") if w.kind != "version" else text
        r.raw = io.BytesIO(text.encode())
        r._content = text.encode()
        return r

    requests.adapters.HTTPAdapter.send = send
    import importlib.metadata

    importlib.metadata.version = lambda name: w.local


class Crash:
    def __init__(self, k):
        self.k, self.n = k, 0
        self.lock = threading.Lock()

    def step(self):
        with self.lock:
            self.n += 1
            if self.n >= self.k:
                os._exit(99)


class Sched:
    def __init__(self, out, inp):
        self.out, self.inp = out, inp
        self.lock = threading.Lock()

    def step(self):
        with self.lock:
            os.write(self.out, b"s")
            os.read(self.inp, 1)


class AtFiles:
    """steps only right before and right after operations on files under `data`"""

    def __init__(self, inner, data):
        self.inner, self.data, self.dirty, self.busy = inner, data, False, False
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if event not in ("open", "os.rename", "os.remove", "os.mkdir", "os.truncate", "os.link", "os.symlink", "os.rmdir", "shutil.move"):
            return
        if self.busy or not any(isinstance(a, (str, bytes)) and self.data in os.fsdecode(a) for a in args):
            return
        self.busy = True
        self.inner.step()
        self.dirty = True
        self.busy = False

    def step(self):
        if self.dirty:
            self.dirty = False
            self.inner.step()


class CrashAt:
    def __init__(self, inner, k):
        self.inner, self.crash = inner, Crash(k)

    def step(self):
        self.inner.step()
        self.crash.step()


def trace(stepper):
    def local(frame, event, arg):
        if event == "line":
            stepper.step()
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(ROOT) else None

    threading.settrace(glob)
    sys.settrace(glob)


def value(doc, kind):
    if doc is None:
        return "unavailable"
    if kind == "remote":
        ok = doc.get("v") == doc.get("end") and len(doc) == PAD + 2
        return str(doc["v"]) if ok else "torn"
    if "AAA" in doc or "ZZZ" in doc:
        ok = "AAA" in doc and "ZZZ" in doc and len(doc) == PAD + 2
        ok = ok and {x["why"] for x in doc.values()} == {doc["AAA"]["why"]}
        return str(doc["AAA"]["why"]) if ok else "torn"
    return "bundled" if doc == BUNDLED else "torn"


BUNDLED = None


def join():
    for t in threading.enumerate():
        if t is not threading.current_thread():
            t.join()


def perform(op, w):
    """in the child"""
    o = op["op"]
    if o == "get":
        return value(load_toml_file(op["url"]), "remote")
    if o == "check":
        out = []
        logger.add(lambda m: out.append(str(m)), level="WARNING", format="{message}")
        edulint.edulint.check_for_updates(False)
        join()
        if not out:
            return "silent"
        s = out[0]
        return s[s.index("(") + 1 : s.index(")")] if len(out) == 1 and "(" in s else "unexpected: " + s[:80]
    if o == "latest":
        v = vc.PackageInfoManager.get_latest_version(op["pkg"], op["ttl"])
        return "none" if v is None else str(v)
    if o == "waiting":
        return "yes" if vc.PackageInfoManager.is_update_waiting(op["pkg"], op["ttl"]) else "no"
    if o == "update":
        EX.update_explanations(*([True] if op.get("off") else []))
        join()
        return "done"
    if o == "explain":
        r = value(EX.get_explanations(not op.get("upd")), "expl")
        join()
        return r
    raise AssertionError(o)


def child(op, w, data, conn, stepper=None):
    global EX
    try:
        os.environ["XDG_DATA_HOME"] = data
        os.environ["HOME"] = data
        time.sleep = lambda s: None
        import importlib

        if op["op"] in ("update", "explain"):
            EX = importlib.reload(edulint.explanations)
        install(w)
        errs = []
        threading.excepthook = lambda a: errs.append(repr(a.exc_value)[:200])
        if op.get("space", -1) >= 0:
            resource.setrlimit(resource.RLIMIT_FSIZE, (op["space"], resource.RLIM_INFINITY))
        if stepper is not None:
            trace(AtFiles(stepper, data) if op.get("io") else stepper)
        try:
            res = perform(op, w)
        except BaseException as e:
            res = "raised " + repr(e)[:150]
        sys.settrace(None)
        if errs:
            res = "raised in thread " + errs[0]
        os.write(conn, json.dumps({"res": res, "req": REQS[0]}).encode())
    finally:
        os._exit(0)


def spawn(op, w, data, stepper=None):
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child(op, w, data, wr, stepper)
    os.close(wr)
    return pid, r


def finish(pid, r):
    buf = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        buf += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    if code == 99:
        return {"res": "crashed", "req": -1}
    if not buf:
        return {"res": f"died {code}", "req": -1}
    return json.loads(buf)


def interleave(ops, w, data, sched):
    """step the processes line by line in the order of the bits of `sched`"""
    ps = []
    for op in ops:
        so, si = os.pipe(), os.pipe()
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            for q in ps:
                for fd in (q["so"], q["si"], q["r"]):
                    os.close(fd)
            os.close(so[0]), os.close(si[1]), os.close(r)
            sc = Sched(so[1], si[0])
            child(op, w, data, wr, CrashAt(sc, op["crash"]) if op.get("crash", 0) > 0 else sc)
        os.close(so[1]), os.close(si[0]), os.close(wr)
        ps.append({"pid": pid, "so": so[0], "si": si[1], "r": r, "alive": True, "ready": False})
    n = 0

    def ready(p):
        if p["alive"] and not p["ready"]:
            p["ready"] = os.read(p["so"], 1) == b"s"
            p["alive"] = p["ready"]
        return p["alive"]

    while any([ready(p) for p in ps]):
        b = sched[n % len(sched)]
        n += 1
        p = ps[b % len(ps)]
        if not p["alive"]:
            p = next(q for q in ps if q["alive"])
        os.write(p["si"], b"g")
        p["ready"] = False
    res = []
    for p in ps:
        os.close(p["so"]), os.close(p["si"])
        res.append(finish(p["pid"], p["r"]))
    return res


def run(job):
    w = World()
    w.kind = job["kind"]
    data = tempfile.mkdtemp(prefix="hist")
    out = []
    try:
        for op in job["ops"]:
            o = op["op"]
            if o == "adv":
                w.now += op["d"]
                out.append({"res": "", "req": 0})
            elif o == "srv":
                if w.kind == "remote":
                    w.srv[op["url"]] = (op["mode"], op["tag"])
                elif w.kind == "version":
                    w.mode = op["mode"]
                    w.releases = op["releases"]
                else:
                    w.mode, w.v = op["mode"], op["v"]
                out.append({"res": "", "req": 0})
            elif o == "wipe":
                shutil.rmtree(data)
                os.mkdir(data)
                out.append({"res": "", "req": 0})
            elif o == "damage":
                for d, _, fs in os.walk(data):
                    for f in fs:
                        if f == "versions.json":
                            with open(os.path.join(d, f), "w") as h:
                                h.write(op["text"])
                out.append({"res": "", "req": 0})
            elif o == "par":
                out.append({"par": interleave(op["ops"], w, data, op["sched"]), "res": "", "req": 0})
            else:
                st = Crash(op["crash"]) if op.get("crash", 0) > 0 else None
                out.append(finish(*spawn(op, w, data, st)))
        return {"out": out}
    finally:
        shutil.rmtree(data, ignore_errors=True)


if __name__ == "__main__":
    import tomli

    with open(os.path.join(ROOT, "explanations.toml"), "rb") as f:
        BUNDLED = tomli.load(f)
    with open(sys.argv[1]) as i, open(sys.argv[2], "w") as o:
        for line in i:
            o.write(json.dumps(run(json.loads(line))) + "\n")
            o.flush()
