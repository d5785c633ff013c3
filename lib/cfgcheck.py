"""Shared by the configuration checks: generate cases, run the real code, let TLC judge."""
import json
import random

import gen_config
from vkit import REPO

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def judge_cases(ctx, cases, aspects, jobs=None, cover=gen_config.COVER, label="case"):
    jobs = jobs or [{"case": c} for c in cases]
    obs = ctx.driver("drv_config", jobs, procs=8, timeout=700)
    pk = ctx.tmp / "packaged.json"
    pk.write_text(
        "".join(json.dumps(c) + "\n" for c in gen_config.packaged(REPO))
    )
    recs = []
    for j, o in zip(jobs, obs):
        o = dict(o)
        o.pop("warnings", None)
        raws = o.pop("raws", [])
        recs.append(
            {"case": gen_config.clean(j["case"]), "aspects": aspects, "cover": cover, "obs": o, "raws": raws}
        )
    bad = ctx.judge("ConfigTrace", recs, cfg=CFG, env={"PACKAGED": pk}, timeout=800)
    for b in bad:
        j, o = jobs[b["i"] - 1], obs[b["i"] - 1]
        fails = sorted(b["fails"])
        ctx.violation(
            "+".join(fails)[:80],
            f"{label}: observed {fails}; cmd={json.dumps(j['case']['cmd'])[:300]} err={o.get('err')}",
            {"fails": fails, "job": j, "observed": o, "expected": b["exp"]},
        )
    ctx.count("cases_replayed", len(jobs))
    ctx.sample({"case": gen_config.clean(jobs[0]["case"]), "observed": recs[0]["obs"]})
    return recs, bad


def random_cases(ctx, n, aspects, job=None, **weights):
    g = gen_config.Gen(ctx.seed * 7919 + sum(map(ord, ctx.pid)), **weights)
    cases = [g.case() for _ in range(n)]
    jobs = [{"case": c, **(job(i, c) if job else {})} for i, c in enumerate(cases)]
    return judge_cases(ctx, cases, aspects, jobs)


MACHINE = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS %s MachineIsOperators Emit
"""


def machine(ctx, profile, invariants, aspects, quick=2, thorough=3, replay=(400, 4000), warn=False):
    """Model check ConfigMachine with one alphabet and replay its final states into the code."""
    r = ctx.model(
        "ConfigMachine",
        MACHINE % invariants,
        env={"MAXARGS": ctx.pick(quick, thorough), "PROFILE": profile},
        timeout=800,
    )
    cases = r.tagged("CASE")
    if not cases:
        raise RuntimeError("the machine printed no final state")
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    n = ctx.pick(*replay)
    if len(cases) > n:
        cases = random.Random(ctx.seed).sample(cases, n)
    ctx.count("model_final_states_replayed", len(cases))
    return judge_cases(ctx, cases, aspects, label=f"behaviour of ConfigMachine ({profile})")
