"""Overriding: exactly the problems without an overriding one on their line remain."""
from lintcheck import machine, random_checks


def run(ctx):
    machine(ctx, "overrides", ["result"], quick=2, thorough=2, replay=(4500, 5000))
    machine(ctx, "chains", ["result"], quick=3, thorough=4, replay=(1500, 30000))
    random_checks(ctx, ctx.pick(1500, 20000), ["result"])
