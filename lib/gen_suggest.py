"""Functions for EduLint to comment on: the cases of SuggestMachine, and larger ones at random."""
import ast

import pyexpr

READ = {"int": "int(input())", "float": "float(input())", "bool": "bool(input())", "char": "input()", "list": "[int(v) for v in input().split()]"}
VARS = [["x", "int"], ["y", "int"], ["b", "bool"], ["r", "float"]]


def function(name, body, vars):
    used = "\n".join(body)
    head = [f"    {v} = {READ[k]}" for v, k in vars]
    return "\n".join([f"def {name}():"] + head + body) + "\n"


def used(vars, body):
    import re

    words = set(re.findall(r"\w+", "\n".join(body)))
    return [v for v in vars if v[0] in words]


def body_of(case):
    """the lines of the function"""
    shape, p = case["shape"], case["parts"]
    t = pyexpr.text
    if shape in ("pair", "three"):
        e = t({"k": "bool", "op": p[0]["op"], "es": p[1:]})
        return [f"    if {e}:", "        print('A')"]
    if shape == "mixed":
        inner = {"k": "bool", "op": {"and": "or", "or": "and"}[p[0]["op"]], "es": p[2:]}
        e = t({"k": "bool", "op": p[0]["op"], "es": [p[1], inner]})
        return [f"    z = {e}", "    print(z)"]
    if shape in ("chain", "chain2", "chain3"):
        res = []
        for i, c in enumerate(p[1:]):
            res += [f"    {'elif' if i else 'if'} {t(c)}:", f"        print('{'ABC'[i]}')"]
        return res + (["    else:", "        print('E')"] if p[0]["k"] == "yes" else [])
    if shape == "values":
        f, c, a, b = p[0]["f"], *map(t, p[1:])
        if f == "ifexp":
            return [f"    z = {a} if {c} else {b}", "    print(z)"]
        if f == "two":
            return [f"    if {c}:", f"        return {a}", "    else:", f"        return {b}"]
        if f == "return":
            return [f"    if {c}:", f"        return {a}", f"    return {b}"]
        if f == "after":
            return ["    if y > 1:", "        print('A')", f"    if {c}:", f"        return {a}", f"    return {b}"]
        op = "=" if f == "assign" else "+="
        return ["    z = 0", f"    if {c}:", f"        z {op} {a}", "    else:", f"        z {op} {b}", "    print(z)"]
    if shape == "nested":
        if p[0]["k"] == "yes":
            return [f"    if {t(p[1])}:", f"        if {t(p[2])}:", "            print('A')", "            return x"]
        return [f"    if {t(p[1])}:", f"        if {t(p[2])}:", "            y = 1", "            print('A')", "    print('B')"]
    if shape == "seq":
        return [f"    if {t(p[0])}:", "        return x", f"    if {t(p[1])}:", "        return x"]
    if shape in ("ifs", "ifs3"):
        res = []
        for i in range(0, len(p), 2):
            res += [f"    if {t(p[i])}:", f"        print('{'ABC'[i // 2]}')"] + pyexpr.lines(p[i + 1]["body"], "        ")
        return res
    if shape == "number":
        return [f"    z = {t({'k': 'bin', 'op': p[0]['op'], 'l': p[1], 'r': p[2]})}", "    print(z)"]
    if shape == "range":
        e = t({"k": "range", "e": {"k": "name", "n": "x"}, "from": p[1], "to": p[2], "step": p[3], "neg": p[0]["k"] == "no"})
        return [f"    if {e}:", "        print('A')"]
    if shape == "is":
        e = t({"k": "cmp", "l": p[1], "ops": [p[0]["op"]], "rs": [p[2]]})
        return [f"    z = {e}", "    print(z)"]
    if shape == "elses":
        return [f"    if {t(p[0])}:", "        pass", "    else:", "        print('A')", f"        return {t(p[1])}"]
    raise ValueError(shape)


def of_case(case, name):
    body = body_of(case)
    vars = used(VARS, body)
    return [function(name, body, vars), vars + ([["z", "int"]] if any(l.startswith("    z = 0") for l in body) else [])]


class Gen:
    """conditions and statements at random"""

    def __init__(self, rnd):
        self.rnd = rnd

    def atom(self, d):
        c = self.rnd.choice
        n = lambda: c(["0", "1", "2", "3", "-1", "-2", "4"])  # noqa: E731
        op = lambda: c(["<", "<=", ">", ">=", "==", "!="])  # noqa: E731
        k = c("vvvvvvccmmdaarbbnpqstxufwggok")
        if k == "g":
            # not as the left operand: astroid itself leaves the brackets of (x > 1) == y out
            a = next(o for o in iter(self.operand, None) if o != "(x > 1)")
            return self.rnd.choice([f"{c('xy')} {op()} {self.operand()}", f"{a} {op()} {c('xy')}", f"{a} {op()} {n()}"])
        if k == "o":
            return c([f"ord(k) {op()} {c(['65', '90', '97', '122', '48', '57', '64', '91', '96', '123', '47', '58', '70'])}", f"{c(['65', '90', '97', '122', '48', '57', '64', '96', '123', '58'])} {op()} ord(k)"])
        if k == "k":
            return c([f"ord(k) {c('+-')} {c(['65', '97', '48', '90', '1'])} {op()} {c(['0', '5', '25', 'x', '66'])}", f"{c(['97', '48', '65'])} + x {op()} ord(k)", f"{c(['65', '97', '48'])} <= ord(k) {c(['<', '<='])} {c(['90', '122', '57', '91', '123', '58'])}"])
        if k == "v":
            return f"{c('xyw')} {op()} {n()}"
        if k == "c":
            return f"{c('xyw')} {op()} {c('xyw')}"
        if k == "m":
            return f"{c('xy')} % {c('234')} {c(['==', '!='])} {c('0123')}"
        if k == "d":
            return f"{c('xy')} // {c(['2', '3', '-2', '-3', '1'])} {op()} {n()}"
        if k == "a":
            return f"abs({c('xy')}) {op()} {n()}"
        if k == "r":
            return f"r {op()} {c(['0.5', '1', '-1.5', 'x', '0'])}"
        if k == "b":
            return c(["b", "c", "not b"])
        if k == "n":
            return f"{n()} {op()} {c('xyw')}"
        if k == "p":
            return f"{c('xy')} {c('+-*')} {c('xyw12')} {op()} {c(['0', '1', 'y', '3', '-1'])}"
        if k == "q":
            return f"{n()} {c(['<', '<='])} {c('xy')} {c(['<', '<=', '>'])} {c(['2', '3', 'w'])}"
        if k == "s":
            return f"{c('xy')} {c(['in', 'not in'])} range({c(['0', '1', '-1', 'w', 'w - 1'])}, {c(['2', '4', '5', 'w', 'w + 3'])}, {c('1123')})"
        if k == "t":
            return f"{c(['max', 'min'])}({c('xy')}, {c('yw2')}) {op()} {c(['0', '2', 'w', 'x'])}"
        if k == "x":
            return c("xyr")
        if k == "u":
            return f"-{c('xy')} {op()} {n()}"
        if k == "f":
            return f"{c('xyr')} / {c(['2', '4', '-2', '0.5'])} {op()} {n()}"
        return f"len(s) {op()} {c('0123')}"

    def operand(self):
        c = self.rnd.choice
        return c([
            "max(y, w)", "min(y, w)", "max(y, w) + 1", "min(x, 2) * 2", "max(l)", "min(l)", "max(l) - 1", "abs(w)", "-abs(y)", "abs(x) - 1",
            "(y if b else 1)", "(x > 1)", "(y and w)", "(not b)", "-w", "(x + y)", "x - 1", "2 * w", "(w - 1) * 2", "x ** 2", "-x ** 2",
            "max(x, y, w)", "abs(x - y)", "int(r)", "int(x / 2)", "max(abs(x), y)", "w % 3", "(x + 1) % 2", "(b and c)", "l[0]",
        ])  # fmt: skip

    def variant(self, test):
        """a condition made from another one: often its negation, sometimes nearly"""
        r = self.rnd
        tree = ast.parse(test, mode="eval").body
        swap = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}
        turn = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

        def go(e, neg):
            if r.random() < 0.06:
                return e if neg else ast.UnaryOp(ast.Not(), e)
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                return go(e.operand, not neg) if r.random() < 0.8 else ast.UnaryOp(ast.Not(), go(e.operand, neg))
            if isinstance(e, ast.BoolOp):
                op = {ast.And: ast.Or, ast.Or: ast.And}[type(e.op)]() if neg and r.random() < 0.95 else e.op
                vals = [go(v, neg) for v in e.values]
                if r.random() < 0.15:
                    vals.reverse()
                if r.random() < 0.1 and len(vals) > 2:
                    vals.pop()
                return ast.BoolOp(op, vals)
            if isinstance(e, ast.Compare):
                mod = len(e.ops) == 1 and isinstance(e.left, ast.BinOp) and isinstance(e.left.op, ast.Mod)
                if mod and isinstance(e.comparators[0], ast.Constant) and r.random() < 0.5:
                    return ast.Compare(e.left, e.ops, [ast.Constant(1 - e.comparators[0].value if r.random() < 0.6 else r.choice([0, 1, 2, 3]))])
                ops = [swap[type(o)]() if neg and type(o) in swap else o for o in e.ops]
                if len(ops) == 1 and type(ops[0]) in turn and not isinstance(e.comparators[0], ast.Compare) and r.random() < 0.2:
                    return ast.Compare(e.comparators[0], [turn[type(ops[0])]()], [e.left])
                return ast.Compare(e.left, ops, e.comparators)
            return ast.UnaryOp(ast.Not(), e) if neg else e

        return ast.unparse(ast.fix_missing_locations(go(tree, r.random() < 0.85)))

    def tests(self):
        """endless conditions, many of them related to the previous one"""
        last = self.test()
        while True:
            yield last
            last = self.variant(last) if self.rnd.random() < 0.3 else self.test()

    def cond(self, d):
        k = self.rnd.random()
        if d == 0 or k < 0.25:
            return self.atom(d)
        if k < 0.9:
            op = self.rnd.choice([" and ", " or "])
            return "(" + op.join(self.cond(d - 1) for _ in range(self.rnd.choice([2, 2, 3, 4]))) + ")"
        return f"not ({self.cond(d - 1)})"

    def test(self):
        e = self.cond(self.rnd.choice([0, 1, 1, 1, 2]))
        return e[1:-1] if e[0] == "(" and e[-1] == ")" and pyexpr.parse(e[1:-1]) is not None and ")" not in e[1:-1].split("(")[0] else e

    def change(self):
        return self.rnd.choice(["x = 0", "y = x", "x += 1", "x = w - 1", "b = True", "y = y - 2", "w = x + y", "x = -x", "c = b", "y = x * 2", "x = y % 2"])

    def block(self, ind, n=0):
        r = self.rnd
        res = [f"{ind}print('{r.choice('ABCDEFGH')}')"]
        if r.random() < 0.35:
            res.append(ind + self.change())
        if n and r.random() < 0.2:
            res += [f"{ind}if {self.test()}:"] + self.block(ind + "    ")
        if r.random() < 0.1:
            res.append(ind + r.choice(["return x", "return", "return True"]))
        r.shuffle(res) if len(res) == 2 and not res[-1].strip().startswith("return") else None
        return res

    def chain(self, ind="    ", n=None, tests=None):
        r = self.rnd
        res = []
        tests = tests or self.tests()
        for i in range(n or r.choice([1, 2, 3, 3, 4, 5])):
            res += [f"{ind}{'elif' if i else 'if'} {next(tests)}:"] + self.block(ind + "    ", 1)
        if r.random() < 0.5:
            res += [f"{ind}else:"] + self.block(ind + "    ", 1)
        return res

    def val(self):
        return self.rnd.choice(["True", "False", "True", "False", "b", "x", "c", "x > y", "b and c", "b or x > 1", "not b", "1", "x % 2 == 0"])

    def program(self, name):
        r = self.rnd
        body = []
        for _ in range(r.choice([1, 1, 2])):
            k = r.random()
            if k < 0.4:
                body += self.chain()
            elif k < 0.6:
                tests = self.tests()
                for _ in range(r.choice([2, 2, 3, 4])):
                    body += self.chain(n=r.choice([1, 1, 1, 2]), tests=tests)
            elif k < 0.75:
                body += [f"    z = {self.test()}", "    print(z)"]
            elif k < 0.85:
                body += [f"    z = {self.val()} if {self.test()} else {self.val()}", "    print(z)"]
            elif k < 0.93:
                t = r.choice(["return ", "z = ", "z = "])
                body += [f"    if {self.test()}:", f"        {t}{self.val()}", "    else:", f"        {t}{self.val()}"]
                if t == "return ":
                    break
            else:
                body += [f"    if {self.test()}:", f"        return {self.val()}", f"    return {self.val()}"]
                break
        vars = used([["x", "int"], ["y", "int"], ["w", "int"], ["b", "bool"], ["c", "bool"], ["r", "float"], ["k", "char"], ["l", "list"]], body)
        head = [f"    s = input()"] if any("len(s)" in l for l in body) else []
        fn = function(name, head + body, vars)
        return [fn, vars + ([["len(s)", "nat"]] if head else []) + ([["l[0]", "int"]] if any("l[0]" in x for x in body) else [])]
