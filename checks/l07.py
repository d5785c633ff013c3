"""Every file can be checked with everything enabled; positions lie within the file."""
import json
import random
from pathlib import Path

from gen_prog import Gen
from vkit import VERIF

MACHINE = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS LinesGrow Emit\n"
FRAG = {
    "assign": "x = 1\n", "crlf": "y = x\r\n", "open": "def f(a):\n", "body": "    return a\n", "tab": "\treturn a;\n",
    "blank": "   \n", "noeol": "z = (1", "close": ")", "text": "'''doc\n", "cont": "w = 1 + \\\n", "uni": "# žluť\n",
    "loop": "while True: pass\n", "cond": "if x == True: x = x\n", "bad": "1 = ?\n", "noqa": "import os  # noqa\n",
}  # fmt: skip
ODD = {
    "empty": "", "bom": "\ufeffx = 1\n", "latin": "# -*- coding: latin-1 -*-\nx = '\xe1\xe9'\n", "null": "x = 1\0\n",
    "cookie": "# -*- coding: nonsense -*-\nx = 1\n", "formfeed": "x = 1\n\f\ndef f():\n\f    pass\n",
    "long": "x = [" + "1, " * 2000 + "]\n", "parens": "x = " + "(" * 90 + "1" + ")" * 90 + "\n", "sum": "x = " + " + ".join(["a"] * 150) + "\n",
    "elifs": "if a == 0:\n    b = 0\n" + "".join(f"elif a == {i}:\n    b = {i}\n" for i in range(1, 40)),
    "deep": "".join("    " * i + f"if a > {i}:\n" for i in range(17)) + "    " * 17 + "b = a\n",
    "surrogate": "x = '\\ud800'\nprint(x)\n", "unicode": "příliš = 'žluťoučký'  # kůň úpěl\nif příliš == True: print(příliš)\n",
    "nonl": "def f():\n    return 1", "onlycomment": "# nothing", "onlydoc": "'''\n\n'''", "backslash": "x = \\", "emoji": "🐍 = 1\ns = '🐍🐍' ; print(s == True)\n",
}  # fmt: skip


def b(text):
    return text.encode("utf8", "surrogateescape").decode("latin-1")


def judge(ctx, jobs, what):
    obs = ctx.driver("drv_pos", jobs, procs=8, timeout=ctx.pick(500, 3600))
    recs = [{k: o[k] for k in ("end", "gaveup", "plain", "lens", "probs")} for o in obs]
    # Pylint alone does not survive these either
    for r, o in zip(recs, obs):
        if o["end"] == "raised" and o["plain"]:
            r["end"] = "result"
    for j, r in zip(jobs, recs):
        if "lens" in j and j["lens"] != r["lens"]:
            raise RuntimeError(f"the model and the driver disagree about lines of {j}")
        if j.get("slow") and r["end"] == "no-end":
            r["end"] = "result"
            ctx.count("files_given_up_for_time")
    for bad in ctx.judge("PositionsTrace", recs):
        j, o = jobs[bad["i"] - 1], obs[bad["i"] - 1]
        fails = sorted(bad["fails"])
        probs = [p for p in o["probs"] if p["code"] in " ".join(fails)]
        ctx.violation(
            "+".join(fails)[:80],
            f"{what} {j['name']}: {fails}; {o['why']} {json.dumps(probs)[:300]} lines={len(o['lens'])}",
            {"fails": fails, "job": j, "observed": o},
        )
    ctx.count("files_checked", len(jobs))
    ctx.count("problems_placed", sum(len(o["probs"]) for o in obs))
    ctx.count("pylint_alone_gave_up", sum(o["plain"] for o in obs))
    ctx.sample({what: jobs[0], "problems": obs[0]["probs"][:5]})


def run(ctx):
    r = ctx.model("TextMachine", MACHINE, env={"MAXARGS": ctx.pick(2, 3)})
    files = r.tagged("FILE")
    if len(files) < 200:
        raise RuntimeError("too few texts")
    files.sort(key=lambda f: f["frags"])
    rnd = random.Random(ctx.seed)
    jobs = [
        {"name": f"t{i}.py", "content": b("".join(FRAG[x] for x in f["frags"])), "lens": f["lens"]}
        for i, f in enumerate(files)
    ]
    judge(ctx, jobs, "text")
    snippets = json.loads((VERIF / "corpus/snippets.json").read_text())
    jobs = [{"name": f"o{k}.py", "content": b(v)} for k, v in ODD.items()]
    jobs += [{"name": f"s{k}.py".replace("-", "_"), "content": b(v)} for k, v in snippets.items()]
    judge(ctx, jobs, "program")
    n = ctx.pick(900, 12000)
    jobs = []
    for i in range(n):
        g = Gen(ctx.seed * 1000003 + i, depth=rnd.choice([1, 2, 2, 3]))
        jobs.append({"name": f"g{i}.py", "content": b(g.program(rnd.choice([1, 2, 2, 3])))})
    judge(ctx, jobs, "random program")
    if not ctx.quick:
        lib = sorted(p for p in Path("/usr/lib/python3.12").rglob("*.py") if 200 < p.stat().st_size < 30000)
        jobs = [
            {"name": f"l{i}_{p.name}", "content": p.read_bytes().decode("latin-1"), "alarm": 300, "slow": True}
            for i, p in enumerate(rnd.sample(lib, min(160, len(lib))))
        ]
        judge(ctx, jobs, "library module")
