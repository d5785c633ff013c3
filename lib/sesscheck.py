"""Shared by the checks of independence between checks."""
import hashlib
import json
import random

from vkit import VERIF

SNIPPETS = json.loads((VERIF / "corpus/snippets.json").read_text())
MINE = ["loops", "conds", "dups", "names", "globals", "flow", "broken", "bytes", "empty"]
OFF = "pylint=--disable=R0801,R0401"
OPTS = [
    ["config=full", OFF],
    ["config=default"],
    ["config=empty", "pylint=--enable=all", OFF, "language-file=cs.toml"],
    ["config=tight.toml"],
    ["config=cs1", "set-groups=enhancement,python-specific", "allowed-onechar-names=il", OFF],
    ["config=empty", "flake8=--select=E,F,W", "pylint=--enable=no-while-true,unused-import,C0103"],
]
EXTRA = {
    "cs.toml": '"C0103" = "špatné jméno"\n"unused-variable" = "proměnná {} se nepoužívá"\n"E225" = "mezery"\n',
    "tight.toml": 'config-file = "empty"\nflake8 = {select = "E,W", max-line-length = 20}\n'
    '[pylint]\nenable = "all"\ndisable = "R0801,R0401"\nmax-line-length = 15\ngood-names = "a,b,x"\nmax-args = 1\nmax-branches = 1\n'
    '[language-translations]\nC0103 = "jmeno {}"\n',
}
INFILE = [
    "", "", "", "# edulint: set-groups=enhancement\n", "# edulint: language-file=cs.toml\n", "# edulint: no-flake8\n",
    "# edulint: pylint=--disable=C0103,W0612\n", "# edulint: config-file=tight.toml\n", "# edulint: allowed-onechar-names=ab\n",
]  # fmt: skip
IMPORTS = [
    "from a import total, first\nimport a\nprint(a.total([1]), a.nothing, first(1))\n",
    "import b\nfrom b import C\nprint(b.missing, C().x, b.f(1, 2))\n",
    "class C:\n    def __init__(self):\n        self.x = 1\n\n\ndef f(p):\n    return p\n",
    "class C:\n    x = None\n\n    def f(self):\n        self.y = 1\n\n\ndef f(p, q):\n    return p, q\n",
]


def content(r, imports=True):
    x = r.random()
    if x < 0.35:
        c = SNIPPETS[r.choice(MINE)]
    elif x < 0.55 and imports:
        c = r.choice(IMPORTS)
    else:
        c = "\n\n".join(SNIPPETS[k] for k in r.sample(sorted(SNIPPETS), r.choice([1, 1, 2])))
    return r.choice(INFILE) + c


def judge(ctx, jobs, label):
    obs = ctx.driver("drv_session", jobs, procs=8, timeout=800)
    recs = []
    for o in obs:
        recs.append(
            {"steps": [dict(s, key=hashlib.sha256(s["key"].encode()).hexdigest()) for s in o["steps"]]}
        )
    bad = ctx.judge("SessionTrace", recs, timeout=600)
    for b in bad:
        j, o = jobs[b["i"] - 1], obs[b["i"] - 1]
        fails = sorted(b["fails"])
        diff = []
        for s in o["steps"]:
            if s["found"] != s["fresh"]:
                diff.append({"only here": [x for x in s["found"] if x not in s["fresh"]][:3], "only fresh": [x for x in s["fresh"] if x not in s["found"]][:3]})
            flat = [x for q in s["ones"] for x in q]
            if flat and sorted(flat) != sorted(s["found"]):
                diff.append({"only together": [x for x in s["found"] if x not in flat][:3], "only alone": [x for x in flat if x not in s["found"]][:3]})
        ctx.violation(
            "+".join(fails), f"{label}: {fails} hist={json.dumps(j['hist'])[:300]} difference={json.dumps(diff)[:600]}",
            {"fails": fails, "job": j, "diff": diff},
        )
    ctx.count("checks_run_in_sessions", sum(len(o["steps"]) for o in obs))
    ctx.count("problems_compared", sum(len(s["found"]) for o in obs for s in o["steps"]))
    ctx.sample({"hist": jobs[0]["hist"], "found": [s["found"][:3] for s in obs[0]["steps"]]})


def instantiate(r, case):
    """an abstract history of SessionMachine with contents and options chosen"""
    cs = [content(r) for _ in range(8)]
    opts = r.sample(OPTS, len(OPTS))
    hist = []
    for op in case["hist"]:
        if op["op"] == "edit":
            hist.append({"op": "edit", "p": op["p"] + ".py", "c": cs[op["c"] - 1]})
        elif op["op"] == "check":
            hist.append({"op": "check", "fs": sorted(f + ".py" for f in op["fs"]), "o": op["o"]})
        else:
            hist.append({"op": "fail", "how": r.choice(["option", "raise", "missing", "config"])})
    return {"disk": dict(EXTRA, **{"a.py": cs[0], "b.py": cs[1]}), "opts": opts, "hist": hist}


CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoInfluence PatchedOnce TogetherIsOneByOne Emit
"""


def machine(ctx, ops, n, contents=3, opts=3):
    r = ctx.model("SessionMachine", CFG, env={"MAXOPS": ops, "CONTENTS": contents, "OPTS": opts}, timeout=800)
    cases = r.tagged("CASE")
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    rr = random.Random(ctx.seed)
    if len(cases) > n:
        cases = rr.sample(cases, n)
    ctx.count("model_histories_replayed", len(cases))
    judge(ctx, [instantiate(rr, c) for c in cases], "history of SessionMachine")


def together(ctx, n, label="batch"):
    jobs = []
    for i in range(n):
        r = random.Random(f"{ctx.seed}-{i}")
        names = r.sample(["ta.py", "tb.py", "tc.py", "sub/td.py", "sub/te.py", "sub/deep/tf.py"], r.choice([2, 2, 3, 4, 5]))
        disk = dict(EXTRA, **{f: content(r, imports=False).replace("=cs.toml", "=" + "../" * f.count("/") + "cs.toml").replace("=tight.toml", "=" + "../" * f.count("/") + "tight.toml") for f in names})
        jobs.append({"disk": disk, "opts": r.sample(OPTS, 1), "hist": [{"op": "check", "fs": names, "o": 1}], "ones": True, "alone": True})
    judge(ctx, jobs, label)
