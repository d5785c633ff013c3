"""Groups (option sets) stand for their linter arguments."""
from cfgcheck import machine, random_cases


def run(ctx):
    machine(ctx, "groups", "LastWins GroupsApplied", ["values", "warn"])
    random_cases(ctx, ctx.pick(700, 6000), ["values", "warn"], malformed=0, badtype=0, groups=0.7, depth=4)
    random_cases(ctx, ctx.pick(60, 500), ["values", "warn"], malformed=0, badtype=0, groups=0.7, default=0.6)
