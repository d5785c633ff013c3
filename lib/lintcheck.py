"""Shared by the checks of the way from messages to results."""
import json
import random

import gen_config
import gen_lint
from vkit import REPO

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def clean(case):
    c = gen_config.clean(dict(case, args=[]))
    c["argv"] = case["argv"]
    return c


def random_checks(ctx, n, aspects, **kw):
    jobs = [gen_lint.job(f"{ctx.pid}-{ctx.seed}-{i}", **kw) for i in range(n)]
    return judge(ctx, jobs, aspects, label="random check")


def judge(ctx, jobs, aspects, label="check"):
    obs = ctx.driver("drv_lint", jobs, procs=8, timeout=700)
    pk = ctx.tmp / "packaged.json"
    pk.write_text("".join(json.dumps(c) + "\n" for c in gen_config.packaged(REPO)))
    recs = []
    for j, o in zip(jobs, obs):
        asp = list(aspects) + (["cli"] if j.get("cli") else [])
        called = {c["linter"] for c in o["calls"]}
        fault = any(f in FATAL and ("pylint" if f.startswith("pylint") else "flake8") in called for f in j.get("faults", []))
        recs.append(
            {"case": clean(j["case"]), "aspects": asp, "fault": fault, "obs": o["obs"], "calls": o["calls"], "raws": o["raws"]}
        )
    bad = ctx.judge("LintTrace", recs, cfg=CFG, env={"PACKAGED": pk}, timeout=800)
    for b in bad:
        j, o = jobs[b["i"] - 1], obs[b["i"] - 1]
        fails = sorted(b["fails"])
        ctx.violation(
            "+".join(fails)[:80],
            f"{label}: observed {fails}; argv={[a['s'] for a in j['case']['argv']]} err={o['obs'].get('err')} "
            f"raws={json.dumps(o['raws'])[:400]} got={json.dumps(o['obs']['problems'])[:400]}",
            {"fails": fails, "job": j, "observed": o},
        )
    ctx.count("checks_replayed", len(jobs))
    ctx.count("messages_in", sum(len(o["raws"]) for o in obs))
    ctx.count("problems_out", sum(len(o["obs"]["problems"]) for o in obs))
    ctx.sample({"case": recs[0]["case"], "raws": recs[0]["raws"], "observed": recs[0]["obs"]})
    return obs


FATAL = ["pylint32", "pylint-raises", "pylint-garbage", "flake8-2", "flake8-raises", "flake8-garbage"]

MACHINE = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS ExactlyTheRest NothingInvented InOrder ChainsOverride Emit
"""


def machine(ctx, profile, aspects, quick=2, thorough=2, replay=(3000, 20000), extra=None):
    r = ctx.model(
        "LintMachine", MACHINE, env={"MAXARGS": ctx.pick(quick, thorough), "PROFILE": profile}, timeout=800
    )
    cases = r.tagged("CASE")
    if not cases:
        raise RuntimeError("the machine printed no final state")
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    n = ctx.pick(*replay)
    if len(cases) > n:
        cases = random.Random(ctx.seed).sample(cases, n)
    for c in cases:
        for f in c["case"]["files"]:
            f.setdefault("lines", [])
    ctx.count("model_final_states_replayed", len(cases))
    jobs = [dict(c, **(extra(i, c) if extra else {})) for i, c in enumerate(cases)]
    return judge(ctx, jobs, aspects, label=f"behaviour of LintMachine ({profile})")
