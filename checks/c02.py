"""Every checked file is in exactly one part, with its own configuration."""
from cfgcheck import machine, random_cases


def run(ctx):
    machine(ctx, "precedence", "LastWins", ["partition", "values"], replay=(100, 1000))
    random_cases(
        ctx, ctx.pick(700, 6000), ["partition", "values", "lang"], files=8, malformed=0, badtype=0,
        job=lambda i, c: {"rel": i % 3 == 0},
    )
    random_cases(
        ctx, ctx.pick(300, 3000), ["partition", "values", "lang"], files=8, malformed=0, badtype=0, implicit=0.6,
        groups=0.1, pylint=0.1, lang=0.3,
    )
    # a single file asked for on its own
    random_cases(
        ctx, ctx.pick(150, 1500), ["partition", "values", "lang"], files=1, malformed=0, badtype=0,
        job=lambda i, c: {"one": True},
    )
