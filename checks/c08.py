"""Which configuration file is used and what it inherits."""
from cfgcheck import machine, random_cases


def run(ctx):
    machine(ctx, "ignore", "LastWins", ["values"], replay=(100, 1000))
    random_cases(ctx, ctx.pick(500, 5000), ["values"], malformed=0, badtype=0, cfg=1.0, depth=5, implicit=0.5, files=3, remote=1)
    random_cases(ctx, ctx.pick(300, 3000), ["values"], malformed=0.05, badtype=0.05, cfg=1.0, depth=4, badcfg=0.6, files=2, implicit=0.2)
    # an unavailable configuration makes the whole check fail instead of passing silently
    random_cases(
        ctx, ctx.pick(100, 800), ["values", "error"], malformed=0, badtype=0, cfg=1.0, depth=3, badcfg=0.7, plain=1,
        job=lambda i, c: {"check": True},
    )
