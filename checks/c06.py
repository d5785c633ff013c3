"""ignore-infile-config-for."""
from cfgcheck import machine, random_cases


def run(ctx):
    machine(ctx, "ignore", "LastWins AllPassed CmdIgnoreHolds", ["values", "partition"])
    random_cases(ctx, ctx.pick(600, 6000), ["values", "partition"], malformed=0, badtype=0, ignore=0.5, files=4, pylint=0.15, groups=0.15)
    recs, _ = random_cases(
        ctx, ctx.pick(300, 2500), ["values", "suppress"], malformed=0, badtype=0, ignore=0.7, files=3, plain=1, magic=1, default=0,
        job=lambda i, c: {"problems": True},
    )
    ctx.count("suppressions_reported", sum(len(r["obs"].get("edl", [])) for r in recs))
