"""Common machinery of the checks: TLC runs, evidence, violations, known findings.

Every check is a module checks/<id>.py with LEVEL and run(ctx).  The module drives the real
code (through subprocess drivers importing /repo), records what it did, and lets TLC decide
against the TLA+ modules in specs/.
"""

import hashlib
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
SPECS = VERIF / "specs"
EVID = VERIF / "evidence"
JARS = ":".join(
    ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"]
)
NCPU = min(8, os.cpu_count() or 2)


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        self.ok = "Model checking completed. No error has been found." in out
        self.violated = re.findall(r"Error: Invariant (\w+) is violated", out) + re.findall(
            r"Error: Action property (\w+) is violated", out
        )
        if "Temporal properties were violated" in out:
            self.violated.append("temporal")
        if "Deadlock reached" in out:
            self.violated.append("deadlock")

    def tagged(self, tag):
        """JSON payloads printed by the spec as PrintT("<tag> " \\o ToJson(..))."""
        res = []
        pre = '"' + tag + " "
        for line in self.out.splitlines():
            if line.startswith(pre) and line.endswith('"'):
                res.append(json.loads(json.loads('"' + line[1:-1] + '"')[len(tag) + 1 :]))
        return res


class Ctx:
    def __init__(self, pid, tier, seed, level):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.tmp = Path(tempfile.mkdtemp(prefix=f"verif-{pid}-"))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        self.samples = []
        self.violations = []  # (key, text, replay data)
        self.assumptions = []
        self.notes = {}
        self._n = 0

    # ---- tiers
    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # ---- TLC
    def tlc(
        self,
        module,
        cfg=None,
        env=None,
        consts=None,
        workers=None,
        timeout=600,
        extra=(),
        expect_ok=True,
        count=True,
        heap="6g",
        dump=None,
        deadlock=False,
        specdir=None,
    ):
        """Run TLC on specs/<module>.tla.  `cfg` is the text of the configuration or the name of a
        file in specs/.  Returns a TLCResult; an evaluation error of the spec is a CheckError."""
        self._n += 1
        d = self.tmp / f"tlc{self._n}"
        d.mkdir()
        for f in (specdir or SPECS).glob("*.tla"):
            shutil.copy(f, d)
        if cfg is None:
            cfg = (SPECS / f"{module}.cfg").read_text()
        elif "\n" not in cfg and (SPECS / cfg).exists():
            cfg = (SPECS / cfg).read_text()
        if consts:
            cfg += "\nCONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in consts.items())
        (d / f"{module}.cfg").write_text(cfg)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JARS]
        cmd += ["tlc2.TLC", "-noGenerateSpecTE", "-metadir", str(d / "states")]
        cmd += ["-workers", str(workers or NCPU)]
        if not deadlock:
            cmd += ["-deadlock"]
        if dump:
            cmd += ["-dump", dump[0], str(dump[1])]
        cmd += list(extra) + ["-config", f"{module}.cfg", f"{module}.tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t = time.time()
        try:
            p = subprocess.run(
                cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout
            )
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC on {module} timed out after {timeout}s")
        r = TLCResult(p.returncode, p.stdout, time.time() - t)
        r.dir = d
        shutil.rmtree(d / "states", ignore_errors=True)
        if not r.ok and not r.violated:
            keep = EVID / f"{self.pid}.tlc-error.txt"
            EVID.mkdir(exist_ok=True)
            keep.write_text(p.stdout[-20000:] + p.stderr[-5000:])
            raise CheckError(f"TLC failed on {module}: see {keep}\n" + _tail_errors(p.stdout))
        if expect_ok and not r.ok:
            keep = EVID / f"{self.pid}.tlc-error.txt"
            keep.write_text(p.stdout[-20000:])
            raise CheckError(f"the model {module} itself violates {r.violated}: see {keep}")
        if count:
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
        return r

    def model(self, module, cfg=None, **kw):
        """Model check the specification itself (its invariants must hold)."""
        r = self.tlc(module, cfg, **kw)
        self.notes.setdefault("models", []).append(
            {"module": module, "states": r.distinct, "transitions": r.generated}
        )
        return r

    def judge(self, module, records, cfg=None, tag="BAD", env=None, **kw):
        """Let the spec <module> judge recorded observations: each record becomes one state of the
        trace cursor; the spec prints `BAD {i, ...}` for a record it does not accept.
        Returns the list of rejected payloads (payload["i"] is the 1-based record number)."""
        if not records:
            raise CheckError("no records to judge")
        f = self.tmp / f"rec{self._n}.ndjson"
        with open(f, "w") as o:
            for rec in records:
                o.write(json.dumps(nonull(rec), ensure_ascii=True) + "\n")
        stride = min(NCPU, len(records))
        cfg = cfg or "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
        e = {"RECORDS": f, "STRIDE": stride}
        e.update(env or {})
        r = self.tlc(module, cfg, env=e, **kw)
        if r.distinct < len(records):
            raise CheckError(f"{module}: only {r.distinct} of {len(records)} records judged")
        self.cov["traces_validated_against_impl"] += len(records)
        self.last = r
        return r.tagged(tag)

    # ---- scratch and subprocess
    def env(self, **kw):
        """Environment for running edulint: private HOME/XDG, code from /repo, no pyc files."""
        e = dict(os.environ)
        home = self.tmp / "home"
        for sub in ("data", "cache", "state", "config"):
            (home / sub).mkdir(parents=True, exist_ok=True)
        e.update(
            HOME=str(home),
            XDG_DATA_HOME=str(home / "data"),
            XDG_CACHE_HOME=str(home / "cache"),
            XDG_STATE_HOME=str(home / "state"),
            XDG_CONFIG_HOME=str(home / "config"),
            PYTHONPATH=f"{REPO}:{VERIF / 'lib'}",
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONHASHSEED="0",
            LANG="C.UTF-8",
            no_proxy="*",
        )
        e.update({k: str(v) for k, v in kw.items()})
        return e

    def driver(self, name, jobs, timeout=600, procs=1, env=None, args=()):
        """Run lib/<name>.py over `jobs` (list of JSON values) and return the list of answers.
        With procs > 1 the jobs are dealt over that many processes."""
        if not jobs:
            return []
        procs = max(1, min(procs, len(jobs)))
        ps = []
        for k in range(procs):
            mine = jobs[k::procs]
            self._n += 1
            i, o = self.tmp / f"job{self._n}.in", self.tmp / f"job{self._n}.out"
            i.write_text("".join(json.dumps(j) + "\n" for j in mine))
            w = self.tmp / f"job{self._n}.d"
            w.mkdir()
            errf = open(self.tmp / f"job{self._n}.err", "w")
            p = subprocess.Popen(
                [PY, str(VERIF / "lib" / f"{name}.py"), str(i), str(o), *map(str, args)],
                cwd=w,
                env=self.env(**(env or {})),
                stdout=errf,
                stderr=errf,
                stdin=subprocess.DEVNULL,
                start_new_session=True,
            )
            ps.append((p, o, len(mine), errf))
        res = [None] * len(jobs)
        end = time.time() + timeout
        err = None
        for k, (p, o, n, errf) in enumerate(ps):
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                err = f"driver {name} timed out after {timeout}s"
            lines = o.read_text().splitlines() if o.exists() else []
            if len(lines) != n and err is None:
                err = (
                    f"driver {name} ended (rc {p.returncode}) with {len(lines)} of {n} answers: "
                    + Path(errf.name).read_text()[-1500:]
                )
            for j, line in enumerate(lines[:n]):
                res[k + j * procs] = json.loads(line)
        if err:
            e = CheckError(err)
            e.partial = res
            raise e
        return res

    # ---- results
    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def violation(self, key, text, data):
        if any(k == key for k, _, _ in self.violations):
            return
        self.violations.append((key, text, data))

    def count(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n


def _tail_errors(out):
    lines = [l for l in out.splitlines() if l.strip()]
    for i, l in enumerate(lines):
        if l.startswith("Error:") or "rror:" in l[:12]:
            return "\n".join(lines[i : i + 12])
    return "\n".join(lines[-12:])


def nonull(x):
    """TLC's Json module has no null and no floats."""
    if x is None:
        return "<null>"
    if isinstance(x, dict):
        return {str(k): nonull(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [nonull(v) for v in x]
    return x


def load_known():
    """known_findings.txt: 'known: property=<id> key=<key> <what>' and 'fixed: ...' lines."""
    res = {}
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                res.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return res


def short(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:12]


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.path.insert(0, str(VERIF / "checks"))
    mod = importlib.import_module(pid.lower())
    ctx = Ctx(pid, tier, seed, getattr(mod, "LEVEL", "model_checking"))
    EVID.mkdir(exist_ok=True)
    for old in EVID.glob(f"replay-{pid}-*.json"):
        old.unlink()
    rc = 0
    try:
        mod.run(ctx)
    except CheckError as e:
        print(f"CHECK ERROR {pid}: {e}", file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(ctx.tmp, ignore_errors=True)
    known = load_known().get(pid, {})
    new = [v for v in ctx.violations if v[0] not in known]
    old = [v for v in ctx.violations if v[0] in known]
    for key, text, data in old:
        print(f"KNOWN-FINDING: property={pid} {known[key]}")
    for n, (key, text, data) in enumerate(new[:10]):
        path = EVID / f"replay-{pid}-{n}.json"
        path.write_text(
            json.dumps({"property": pid, "key": key, "what": text, "data": data}, indent=1, default=str)
        )
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  key={key} {text}"[:1200])
    cov = dict(ctx.cov)
    cov["samples"] = ctx.samples or ["(none)"]
    cov.update(ctx.notes)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": ctx.level,
        "coverage": cov,
        "assumptions": ctx.assumptions or getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(new),
    }
    (EVID / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    if new:
        # a violation that was found is an answer even if the rest of the check could not finish
        return 1
    if rc == 0:
        print(
            f"OK property={pid} tier={tier} states={cov['states']} "
            f"traces={cov['traces_validated_against_impl']} wall={ev['wall_s']}s"
        )
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
