"""Every problem names who enabled its message."""
from cfgcheck import machine, random_cases


def run(ctx):
    machine(ctx, "enablers", "LastWins", ["values"], replay=(100, 1000))
    recs, _ = random_cases(
        ctx, ctx.pick(450, 4000), ["values", "enabledby"], malformed=0, badtype=0, pylint=0.5, groups=0.3, depth=3, files=2,
        ignore=0.06, real=1, default=0.1, case=0, job=lambda i, c: {"problems": True},
    )
    ctx.count("problems_judged", sum(len(r["obs"].get("problems", [])) for r in recs))
    ctx.count("problems_with_enabler", sum(p["by"] != "<null>" for r in recs for p in r["obs"].get("problems", [])))
