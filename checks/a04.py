"""Generalizations of fragments of code give the fragments back."""
import json
import random
import warnings

import gen_unify
from vkit import CheckError

MACHINE = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Fits Emit\n"
TRACE = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Good\n"


def judge(ctx, jobs, what):
    obs = ctx.driver("drv_unify", jobs, procs=8, timeout=ctx.pick(500, 3600))
    kept = []
    for j, o in zip(jobs, obs):
        if o["skip"]:
            ctx.count("skipped " + o["skip"])
        elif o["raised"]:
            ctx.violation(f"raised {o['raised'][:40]}", f"{what}: antiunify raised {o['raised']}: {j['text']}", {"job": j})
        else:
            kept += [(j, rec) for rec in o["recs"]]
    for bad in ctx.judge("AntiUnifyTrace", [rec for _, rec in kept], TRACE, workers=8, timeout=ctx.pick(600, 3000)):
        j, rec = kept[bad["i"] - 1]
        ctx.violation(f"{bad['what']}", f"{what}: {bad['what']} (one to one: {rec['strict']}): {json.dumps(j['places'])} of\n{j['text']}", {"job": j, "rec": rec})
    ctx.count("pairs", len(kept) // 2)
    ctx.count("holes", sum(len(rec["subs"]) for _, rec in kept))
    ctx.count("without a generalization", sum(rec["none"] for _, rec in kept))
    ctx.sample({what: kept[len(kept) // 2][0]["text"]})


def run(ctx):
    warnings.simplefilter("ignore", SyntaxWarning)
    rnd = random.Random(ctx.seed)
    cases = ctx.model("AntiUnifyMachine", MACHINE).tagged("CASE")
    if len(cases) < 10000:
        raise CheckError("too few pairs")
    cases.sort(key=json.dumps)
    judge(ctx, [gen_unify.small(c["a"], c["b"]) for c in (cases if not ctx.quick else rnd.sample(cases, 4000))], "small pair")
    judge(ctx, [gen_unify.pair(ctx.seed * 1000003 + i) for i in range(ctx.pick(6000, 60000))], "random pair")
