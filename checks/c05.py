"""Enabling and disabling checks reads left to right; other Pylint arguments pass unchanged."""
from cfgcheck import machine, random_cases


def run(ctx):
    machine(ctx, "switches", "SwitchesLeftToRight LastWins", ["pylint"], replay=(400, 5000))
    random_cases(ctx, ctx.pick(700, 6000), ["pylint"], malformed=0, badtype=0, pylint=0.9, groups=0.05, depth=3)
    random_cases(ctx, ctx.pick(300, 3000), ["pylint"], malformed=0, badtype=0, pylint=0.6, groups=0.6, depth=3, case=0.4)
