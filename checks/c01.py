"""Precedence of configuration sources."""
from cfgcheck import machine, random_cases

ASSUMPTIONS = ["options and values are drawn from the alphabets of lib/gen_config.py"]


def run(ctx):
    machine(ctx, "precedence", "LastWins AllPassed", ["values"])
    random_cases(ctx, ctx.pick(700, 6000), ["values"], malformed=0, badtype=0, depth=3, groups=0.15)
    random_cases(ctx, ctx.pick(60, 500), ["values"], malformed=0, badtype=0, default=0.5)
