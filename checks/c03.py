"""Malformed configuration is ignored with a warning; option names are case-insensitive."""
from cfgcheck import machine, random_cases


def run(ctx):
    machine(ctx, "malformed", "LastWins AllPassed MalformedIgnored", ["values", "warn"])
    random_cases(ctx, ctx.pick(400, 4000), ["values", "warn"], malformed=0.3, badtype=0.0, case=0.5)
    random_cases(ctx, ctx.pick(500, 5000), ["values", "warn"], malformed=0.1, badtype=0.25, case=0.2, depth=3, lang=0.3)
    # well-formed configuration is not warned about
    random_cases(ctx, ctx.pick(200, 2000), ["values", "warn"], malformed=0.0, badtype=0.0, case=0.3, groups=0.1)
