"""What EduLint suggests for conditions and expressions computes the same."""
import suggestcheck as s

EXPR = "R6204 R6209 R6211 R6212 R6213 R6214 R6215 R6216 R6222 R6607 R6608 R6613 R6614 R6615 R6617 R6618 R6619".split()


def run(ctx):
    shapes = [("pair", 3), ("three", 5), ("mixed", 7), ("values", 3), ("number", 1), ("range", 1), ("is", 1)]
    if not ctx.quick:
        shapes = [("pair", 1), ("three", 1), ("mixed", 1), ("values", 1), ("number", 1), ("range", 1), ("is", 1)]
    s.judge(ctx, s.from_cases(s.cases(ctx, shapes)), EXPR, "small conditions")
    s.judge(ctx, s.at_random(ctx.seed, ctx.pick(1500, 30000)), EXPR, "functions")
