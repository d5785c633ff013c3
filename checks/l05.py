"""Checks in one process do not influence each other."""
from sesscheck import machine


def run(ctx):
    machine(ctx, ctx.pick(3, 4), ctx.pick(220, 2500))
