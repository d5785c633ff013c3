"""Filtering and rewording."""
from lintcheck import machine, random_checks

TWEAKED = ["C0104", "F401", "R6607", "C0325", "W0622", "E712", "C0104", "W0622", "R6607", "C0103", "F811"]


def run(ctx):
    machine(ctx, "tweaks", ["result"], quick=2, thorough=3, replay=(4000, 30000))
    random_checks(ctx, ctx.pick(2500, 20000), ["result"], codes=TWEAKED, overlap=0, links=0)
