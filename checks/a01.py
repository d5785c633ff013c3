"""Every execution is a path in the control flow graph."""
import json
import random
from pathlib import Path

from gen_prog import Gen
from gen_flow import FlowGen
from vkit import VERIF, CheckError

MACHINE = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Nested Emit\n"
TRACE = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS StepsThere Iterates\n"
TOLD = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Told\n"


def judge(ctx, jobs, what):
    obs = ctx.driver("drv_flow", jobs, procs=8, timeout=ctx.pick(500, 3600))
    kept = []
    for j, o in zip(jobs, obs):
        if o["skip"]:
            ctx.count("skipped " + o["skip"])
        elif o["raised"]:
            ctx.violation("raised", f"{what} {j.get('name', '')}: the analysis raised {o['raised']}", {"job": j, "text": o["text"]})
        else:
            kept.append((j, o))
            if o["unknown"]:
                ctx.violation("invented", f"{what} {j.get('name', '')}: the graph contains {o['unknown']}", {"job": j, "text": o["text"], "parts": o["unknown"]})
    recs = [o["rec"] for _, o in kept]
    states = ctx.cov["states"]
    bads = {}
    for bad in ctx.judge("FlowTrace", recs, TRACE, workers=8, timeout=ctx.pick(600, 3000)):
        bads.setdefault(bad["i"], []).append(bad)
    ctx.count("execution_states", ctx.cov["states"] - states)
    for i, bs in sorted(bads.items()):
        j, o = kept[i - 1]
        at = lambda a: "the start" if a < 0 else "the end" if a == 0 else o["atoms"][a - 1]
        bs.sort(key=lambda b: (b["what"], b["from"], b["to"]))
        ctx.violation(
            f"{what} {bs[0]['what']}",
            f"{what} {j.get('name', '')}: " + "; ".join(f"{b['what']} from {at(b['from'])} to {at(b['to'])}" for b in bs[:3]) + " (line, column, end)",
            {"job": j, "text": o["text"] or j.get("text"), "missing": [[b["what"], at(b["from"]), at(b["to"])] for b in bs]},
        )
    ctx.count("programs", len(kept))
    ctx.count("edges_recorded", sum(len(s) for r in recs for s in r["succ"]))
    ctx.sample({what: kept[len(kept) // 2][1]["text"] or str(kept[len(kept) // 2][0])[:300]})
    return kept


def compare_with_python(ctx, kept):
    """the steps Flow.tla allows are those that programs make when run by Python"""
    live = [(j, o) for j, o in kept if o["live"] is not None]
    ctx.judge("FlowTrace", [o["rec"] for _, o in live], TOLD, workers=8, timeout=ctx.pick(600, 3000))
    ctx.cov["traces_validated_against_impl"] -= len(live)
    spec = [set() for _ in live]
    for s in ctx.last.tagged("STEP"):
        spec[s["i"] - 1] |= {(s["a"], b) for b in s["to"]}
    for (j, o), said in zip(live, spec):
        steps, whole = o["live"]
        # wildcard patterns leave no trace
        for u in [c["a"] for n in o["rec"]["nodes"] if n["k"] == "match" for c in n["cases"] if c["irr"]]:
            said = {(a, b) for a, b in said if u not in (a, b)} | {(a, b) for a, x in said if x == u for y, b in said if y == u}
        # the start of f, its definition, the end of programs that raise
        args = o["rec"]["units"][1]["args"]
        said = {(a, b) for a, b in said if a not in (1, args)}
        ran = {tuple(s) for s in steps}
        odd = sorted(ran - said) + sorted((a, b) for a, b in said - ran if b and whole)
        if odd:
            raise CheckError(f"Flow.tla differs from Python: {o['text']} {o['atoms']} {odd} ran={sorted(ran)} said={sorted(said)}")
    ctx.count("programs_run_in_python", len(live))
    ctx.count("steps_made_in_python", sum(len(o["live"][0]) for _, o in live))


def run(ctx):
    cases = [c["toks"] for c in ctx.model("FlowMachine", MACHINE, env={"MAXTOK": ctx.pick(4, 5)}).tagged("CASE")]
    if len(cases) < 3000:
        raise CheckError("too few programs")
    cases.sort()
    rnd = random.Random(ctx.seed)
    jobs = [{"toks": t, "live": 6 if len(t) < 4 or rnd.random() < 0.1 else 0, "seed": i} for i, t in enumerate(cases)]
    compare_with_python(ctx, judge(ctx, jobs, "small program"))
    g = FlowGen(rnd)
    judge(ctx, [{"toks": g.tokens(rnd.randint(5, 16)), "seed": i, "stops": 6} for i in range(ctx.pick(5000, 25000))], "random program")
    snippets = json.loads((VERIF / "corpus/snippets.json").read_text())
    jobs = [{"text": v, "name": k, "stops": 4} for k, v in sorted(snippets.items())]
    jobs += [{"text": Gen(ctx.seed * 1000003 + i, depth=rnd.choice([1, 2, 3])).program(rnd.choice([1, 2, 3])), "name": f"g{i}"} for i in range(ctx.pick(800, 6000))]
    judge(ctx, jobs, "code")
    if not ctx.quick:
        lib = sorted(p for p in Path("/usr/lib/python3.12").rglob("*.py") if 200 < p.stat().st_size < 9000)
        jobs = []
        for p in rnd.sample(lib, min(200, len(lib))):
            try:
                jobs.append({"text": p.read_text("utf8"), "name": str(p)})
            except UnicodeDecodeError:
                pass
        judge(ctx, jobs, "library module")
