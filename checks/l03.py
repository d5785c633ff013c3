"""Exit code and output of the command line against the result of check_code."""
from lintcheck import machine, random_checks


def run(ctx):
    machine(ctx, "order", ["result", "order"], quick=1, thorough=2, replay=(100, 3000), extra=lambda i, c: {"cli": True})
    random_checks(ctx, ctx.pick(1200, 10000), ["result"], cli=True, faults=0.3)
