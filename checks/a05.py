"""What EduLint says about loops is true of every execution."""
import gen_loops
import suggestcheck as s

MACHINE = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Steady Unrolled Emit\n"


def run(ctx):
    shapes = [("true", 100), ("tight", 100), ("modify", 10), ("control", 30), ("usefor", 15), ("usefor3", 1009), ("foreach", 2), ("foreach3", 97), ("infinite", 2), ("once", 1)]
    if not ctx.quick:
        shapes = [("true", 7), ("tight", 7), ("modify", 1), ("control", 3), ("usefor", 1), ("usefor3", 50), ("foreach", 1), ("foreach3", 7), ("infinite", 1), ("once", 1)]
    fns = [gen_loops.of_case(c, f"f{i}") for i, c in enumerate(s.cases(ctx, shapes, "LoopMachine", MACHINE))]
    s.judge(ctx, fns, [], "small loops", cap=ctx.pick(60, 200), driver="drv_loops", spec="LoopTrace")
    n = ctx.pick(2500, 40000)
    for part in range(0, n, 10000):
        s.judge(ctx, gen_loops.at_random(ctx.seed + part, min(n, 10000)), [], "loops at random", cap=60, driver="drv_loops", spec="LoopTrace")
