"""Lets specs/Suggest.tla judge the suggestions EduLint makes about functions."""
import random

import gen_suggest
from vkit import CheckError

MACHINE = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS DeMorgan Associative Divides Elifs Emit\n"


def cases(ctx, sizes, machine="SuggestMachine", cfg=MACHINE):
    res = []
    for shape, size in sizes:
        got = ctx.model(machine, cfg, env={"SHAPE": shape, "SIZE": size}).tagged("CASE")
        if not got:
            raise CheckError(f"no cases of shape {shape}")
        got.sort(key=str)
        res += got
    return res


def judge(ctx, fns, codes, what, cap=300, per=30, driver="drv_suggest", spec="SuggestTrace"):
    jobs = [{"fns": fns[i : i + per], "cap": cap} for i in range(0, len(fns), per)]
    obs = ctx.driver(driver, jobs, procs=8, timeout=ctx.pick(600, 7000), env={"CODES": " ".join(codes)})
    recs, where = [], []
    for j, o in zip(jobs, obs):
        for k, r in o["recs"]:
            recs.append(r)
            where.append(j["fns"][k])
        for u in o["unread"]:
            ctx.count(f"not judged: {u['code']} ({u['why']})")
        for u in o["broken"]:
            ctx.violation(
                f"{u['code']} broken", f"{what}: '{u['said']}' is not a suggestion one can follow: {u['why']}",
                {**u, "function": j["fns"][u["fn"]][0]},
            )  # fmt: skip
    seen = {}
    for r in recs:
        seen[r["code"]] = seen.get(r["code"], 0) + 1
    for c, n in seen.items():
        ctx.count(f"suggestions {c}", n)
    if not recs:
        raise CheckError(f"no suggestions about {what}")
    bads = ctx.judge(spec, recs, tag="BAD", timeout=ctx.pick(800, 6000))
    wrong = ctx.last.tagged("SPEC")
    if wrong:
        i = wrong[0]["i"] - 1
        fails = [recs[i]["py"][k - 1] for k in wrong[0]["fails"]]
        raise CheckError(f"MiniPy.tla differs from Python: {recs[i]['code']} {where[i][0]} {fails}")
    ctx.count("undecided suggestions", len(ctx.last.tagged("VACUOUS")))
    ctx.count("functions", len(fns))
    for bad in bads:
        r, fn = recs[bad["i"] - 1], where[bad["i"] - 1]
        env = {n: v for n, v in bad["env"].items()} if isinstance(bad["env"], dict) else bad["env"]
        ctx.violation(
            f"{r['code']} {what}", f"{what}: '{r['said']}' on line {r['line']} does not hold with {env}: {fn[0]}",
            {"function": fn[0], "said": r["said"], "line": r["line"], "values": env},
        )  # fmt: skip
    if recs:
        ctx.sample({what: where[len(recs) // 2][0], "said": recs[len(recs) // 2]["said"]})
    return seen


def from_cases(cs):
    return [gen_suggest.of_case(c, f"f{i}") for i, c in enumerate(cs)]


def at_random(seed, n):
    res = []
    for i in range(n):
        g = gen_suggest.Gen(random.Random(seed * 1000003 + i))
        res.append(g.program(f"f{i}"))
    return res
