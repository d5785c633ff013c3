"""Every flow of a value to its use is in the definitions and uses EduLint connects."""
import json
import random
from pathlib import Path

from gen_flow import FlowGen
from gen_prog import Gen
from vkit import VERIF, CheckError

MACHINE = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Nested Emit\n"
TRACE = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Connected\n"
TOLD = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Told\n"


def judge(ctx, jobs, what):
    obs = ctx.driver("drv_defuse", jobs, procs=8, timeout=ctx.pick(500, 3600))
    kept = []
    for j, o in zip(jobs, obs):
        at = {"job": j, "text": o["text"] or j.get("text")}
        if o["skip"]:
            ctx.count("skipped " + o["skip"])
        elif o["raised"]:
            ctx.violation("raised", f"{what} {j.get('name', '')}: the analysis raised {o['raised']}", at)
        else:
            if o["odd"]:
                ctx.violation("odd", f"{what} {j.get('name', '')}: {'; '.join(o['odd'])}", at)
            if o["missing"]:
                op, v, line, col = o["missing"][0]
                says = {"r": "read", "w": "assignment", "m": "modification", "d": "deletion"}[op]
                ctx.violation(f"missing {op}", f"{what} {j.get('name', '')}: the {says} of {v} on line {line}, column {col} is not among the events", at)
            else:
                kept.append((j, o))
    states = ctx.cov["states"]
    bads = {}
    for bad in ctx.judge("DefUseTrace", [o["rec"] for _, o in kept], TRACE, workers=8, timeout=ctx.pick(600, 3000)):
        bads.setdefault(bad["i"], []).append(bad)
    ctx.count("execution_states", ctx.cov["states"] - states)
    for i, bs in sorted(bads.items()):
        j, o = kept[i - 1]
        unbound = {e: last for e, last in o["handlers"]}
        # the name of an exception is deleted when its handler ends
        bs = [b for b in bs if b["def"] not in unbound or o["events"][b["use"] - 1][2] <= unbound[b["def"]]]
        at = lambda e: "{} of {} on line {}, column {}".format(*o["events"][e - 1])
        bs.sort(key=lambda b: (b["use"], b["def"]))
        if bs:
            ops = [o["events"][bs[0][x] - 1][0] for x in ("def", "use")]
            ctx.violation(
                f"{what} {ops}",
                f"{what} {j.get('name', '')}: " + "; ".join(f"{at(b['use'])} may see {at(b['def'])}, which is not among its definitions" for b in bs[:3]),
                {"job": j, "text": o["text"] or j.get("text")},
            )
    ctx.count("programs", len(kept))
    ctx.count("events_recorded", sum(len(o["events"]) for _, o in kept))
    if kept:
        ctx.sample({what: kept[len(kept) // 2][1]["text"] or str(kept[len(kept) // 2][0])[:300]})
    return kept


def compare_with_python(ctx, kept):
    """the flows DefUse.tla has include those that programs have when run by Python"""
    live = [(j, o) for j, o in kept if o["live"] is not None]
    ctx.judge("DefUseTrace", [o["rec"] for _, o in live], TOLD, workers=8, timeout=ctx.pick(600, 3000))
    ctx.cov["traces_validated_against_impl"] -= len(live)
    spec = [set() for _ in live]
    for s in ctx.last.tagged("PAIR"):
        spec[s["i"] - 1] |= {(p["use"], p["def"]) for p in s["pairs"]}
    met = 0
    for (j, o), said in zip(live, spec):
        ran = {tuple(p) for p in o["live"]}
        met += len(ran)
        if ran - said:
            raise CheckError(f"DefUse.tla differs from Python: {o['text']} {[(o['events'][u - 1], o['events'][d - 1]) for u, d in ran - said]}")
    ctx.count("programs_run_in_python", len(live))
    ctx.count("flows_seen_in_python", met)
    ctx.count("flows_of_these_programs_in_the_specification", sum(map(len, spec)))
    if met * 2 < sum(map(len, spec)):
        raise CheckError("few flows were seen in Python")


def run(ctx):
    rnd = random.Random(ctx.seed)
    cases = [c["toks"] for c in ctx.model("FlowMachine", MACHINE, env={"MAXTOK": ctx.pick(3, 4)}).tagged("CASE")]
    cases.sort()
    jobs = [{"toks": t, "seed": ctx.seed * 1000 + n, "live": 40 if rnd.random() < ctx.pick(0.2, 0.05) else 0} for t in cases for n in range(ctx.pick(4, 4))]
    compare_with_python(ctx, judge(ctx, jobs, "small program"))
    g = FlowGen(rnd)
    jobs = [{"toks": g.tokens(rnd.randint(3, 12)), "seed": i, "live": 100 if i % 10 == 0 else 0} for i in range(ctx.pick(3000, 20000))]
    compare_with_python(ctx, judge(ctx, jobs, "random program"))
    snippets = json.loads((VERIF / "corpus/snippets.json").read_text())
    jobs = [{"text": v, "name": k} for k, v in sorted(snippets.items())]
    jobs += [{"text": Gen(ctx.seed * 1000003 + i, depth=rnd.choice([1, 2, 3])).program(rnd.choice([1, 2, 3])), "name": f"g{i}"} for i in range(ctx.pick(800, 6000))]
    judge(ctx, jobs, "code")
    if not ctx.quick:
        lib = sorted(p for p in Path("/usr/lib/python3.12").rglob("*.py") if 200 < p.stat().st_size < 9000)
        jobs = []
        for p in rnd.sample(lib, min(200, len(lib))):
            try:
                jobs.append({"text": p.read_text("utf8"), "name": str(p)})
            except UnicodeDecodeError:
                pass
        judge(ctx, jobs, "library module")
