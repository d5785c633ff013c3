"""Checking files together finds what checking them one by one finds."""
from sesscheck import together


def run(ctx):
    ctx.model("SessionMachine", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS TogetherIsOneByOne\n", env={"MAXOPS": 3, "CONTENTS": 3, "OPTS": 2})
    together(ctx, ctx.pick(150, 1500))
