"""What EduLint suggests for if statements does the same."""
import suggestcheck as s

STMT = "R6201 R6202 R6203 R6205 R6206 R6207 R6208 R6210 R6217 R6218 R6219 R6220 R6221 R6223 R6224 R6609 R6611 R6612".split()


def run(ctx):
    shapes = [("chain", 3), ("chain2", 7), ("chain3", 7), ("values", 2), ("nested", 1), ("seq", 1), ("ifs", 20), ("ifs3", 1009), ("elses", 1)]
    if not ctx.quick:
        shapes = [("chain", 1), ("chain2", 1), ("chain3", 1), ("values", 1), ("nested", 1), ("seq", 1), ("ifs", 2), ("ifs3", 50), ("elses", 1)]
    s.judge(ctx, s.from_cases(s.cases(ctx, shapes)), STMT, "small ifs")
    s.judge(ctx, s.at_random(ctx.seed, ctx.pick(1500, 30000)), STMT, "functions")
