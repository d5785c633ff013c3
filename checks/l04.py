"""Order of problems and names of files."""
from lintcheck import machine, random_checks


def run(ctx):
    machine(ctx, "order", ["result", "order", "paths"], quick=2, thorough=2, replay=(3000, 10000))
    random_checks(ctx, ctx.pick(2500, 20000), ["result", "order", "paths", "calls"], links=0.3, overlap=0.3)
    random_checks(ctx, ctx.pick(300, 3000), ["order", "paths"], big=True, links=0.1)
