"""Functions with loops for EduLint to comment on: the cases of LoopMachine, and larger ones at random."""
import random

import gen_suggest
import pyexpr

VARS = [["x", "int"], ["n", "int"], ["l", "list"], ["m", "list"]]


def of_case(case, name):
    body = pyexpr.lines(case["block"])
    vars = gen_suggest.used(VARS, body)
    return [gen_suggest.function(name, body, vars), vars]


class Gen:
    """Functions whose loops are close to those EduLint speaks about."""

    def __init__(self, rnd):
        self.r = rnd
        self.inloop = 0

    def pick(self, *xs):
        return self.r.choice(xs)

    def often(self, p):
        return self.r.random() < p

    def atom(self, names):
        return self.pick(*names, *names, str(self.r.randint(0, 3)), "x")

    def num(self, names):
        k = self.r.random()
        if k < 0.6:
            return self.atom(names)
        if k < 0.8:
            return f"{self.atom(names)} {self.pick('+', '-', '*', '+')} {self.atom(names)}"
        if k < 0.9:
            return f"len({self.pick('l', 'm')})"
        return f"{self.pick('l', 'm')}[{self.pick(*names, '0', '-1')}]"

    def cond(self, names):
        k = self.r.random()
        if k < 0.75:
            return f"{self.num(names)} {self.pick('==', '<', '<=', '>', '>=', '!=')} {self.atom(names)}"
        if k < 0.85:
            return f"{self.atom(names)} {self.pick('in', 'not in')} {self.pick('l', 'm')}"
        if k < 0.93:
            return f"{self.cond(names)} {self.pick('and', 'or')} {self.cond(names)}"
        return self.pick("l", "m", self.atom(names), f"not {self.atom(names)}")

    def change(self, names, lists=("l", "m")):
        """something done to a list"""
        l = self.pick(*lists)
        return self.pick(
            f"{l}.append({self.num(names)})", f"{l}.pop()", f"{l}.remove({self.atom(names)})", f"{l}[{self.atom(names)}] = {self.num(names)}",
            f"{l}.insert(0, {self.atom(names)})", f"{l}.clear()", f"del {l}[0]", f"{l} = {l}[:]", f"{l} = [{self.atom(names)}]", f"{l}[{self.atom(names)}] += 1",
        )  # fmt: skip

    def simple(self, names, own=()):
        """own: control variables"""
        k = self.r.random()
        if k < 0.35:
            return f"print({self.num(names)})"
        if k < 0.55:
            v = self.pick("x", "n", *own)
            return self.pick(f"{v} = {self.num(names)}", f"{v} += {self.atom(names)}", f"{v} -= 1", f"{v} = {v} + 1")
        if k < 0.75:
            return self.change(names)
        if k < 0.8 and self.inloop:
            return self.pick("break", "continue")
        if k < 0.83:
            return f"return {self.atom(names)}"
        return f"print({self.pick('l', 'm')}[{self.pick(*names, '0')}])"

    def body(self, names, own, depth, size=None):
        res = []
        for _ in range(size or self.r.randint(1, 3)):
            res += self.stmt(names, own, depth)
        return res

    def ind(self, lines):
        return ["    " + x for x in lines]

    def loop(self, head, body, names, own, depth):
        res = [head] + self.ind(body)
        if self.often(0.1):
            self.inloop, k = 0, self.inloop
            res += ["else:"] + self.ind(self.body(names, own, depth - 1, 1))
            self.inloop = k
        return res

    def stmt(self, names, own, depth):
        k = self.r.random()
        if depth <= 0 or k < 0.5:
            return [self.simple(names, own)]
        if k < 0.78:
            res = [f"if {self.cond(names)}:"] + self.ind(self.body(names, own, depth - 1, self.pick(1, 1, 2)))
            if self.often(0.3):
                res += ["else:"] + self.ind(self.body(names, own, depth - 1, 1))
            return res
        return self.scene(names, own, depth - 1)

    def inside(self, names, own, depth, size=None):
        self.inloop += 1
        res = self.body(names, own, depth, size)
        self.inloop -= 1
        return res

    def scene(self, names, own, depth):
        """a loop"""
        kind = self.pick("true", "tight", "over", "range", "len", "len", "while", "while", "still", "once")
        v = self.pick("i", "j", *own) if own else self.pick("i", "j")
        more = [*names, v]
        if kind == "true":
            test = [f"if {self.cond(names)}:", "    break"]
            if self.often(0.2):
                test += ["else:"] + self.ind(self.inside(names, own, depth, 1))
            body = test + (self.inside(names, own, depth) if self.often(0.9) else [])
            if self.often(0.15):
                body = self.inside(names, own, depth, 1) + body
            return self.loop("while True:", body, names, own, depth)
        if kind == "tight":
            a, b, s = self.pick("0", "1", "x", "3"), self.pick("n", "4", "len(l)", "x", "5"), self.pick("", "", ", 1", ", 2", ", -1")
            end = self.pick(a, a, f"{b} - {s[2:] or 1}", f"{b} - 1", "3")
            args = f"{a}, {b}{s}" if s or a != "0" or self.often(0.5) else b
            test = [f"if {self.pick(f'{v} == {end}', f'{end} == {v}')}:", "    " + self.pick("continue", "break")]
            if self.often(0.2):
                test += ["else:"] + self.ind(self.inside(more, [v], depth, 1))
            return self.loop(f"for {v} in range({args}):", test + self.inside(more, [v], depth), names, own, depth)
        if kind == "over":
            l = self.pick("l", "m")
            body = self.inside(more, [v], depth, 1) + [self.change(more, [l])] + (self.inside(more, [], depth, 1) if self.often(0.5) else [])
            if self.often(0.4):
                body = [f"if {self.cond(more)}:"] + self.ind([self.change(more, [l]), self.pick("break", "return", "print(x)", "continue")])
            return self.loop(f"for {v} in {l}:", body, names, own, depth)
        if kind == "range":
            body = self.inside(more, [v], depth)
            return self.loop(f"for {v} in range({self.pick('n', '3', 'x', '1, n', 'n, 0, -1')}):", body, names, own, depth)
        if kind == "len":
            l = self.pick("l", "l", "m")
            use = [f"print({l}[{v}])", f"x += {l}[{v}]", f"n = {l}[{v}] + {self.atom(names)}", f"print({v} + {l}[{v}])", f"l[{v}] += {l}[{v}]", f"m.append({l}[{v}])"]
            body = [self.r.choice(use) for _ in range(self.pick(1, 1, 2))]
            if self.often(0.4):
                body = [f"if {l}[{v}] {self.pick('>', '==', '<')} {self.atom(names)}:"] + self.ind(body)
            if self.often(0.4):
                body += self.inside(names, [], depth, 1)
            return self.loop(f"for {v} in range(len({l})):", body, names, own, depth)
        if kind == "while":
            c = self.pick("x", "n")
            lim = self.pick("3", "5", "n" if c == "x" else "x", "len(l)", "0", f"n - 1" if c == "x" else "x + 1")
            op = self.pick("<", "<=", ">", ">=")
            step = self.pick(f"{c} += 1", f"{c} -= 1", f"{c} = {c} + 1", f"{c} = {c} - 1", f"{c} = 1 + {c}", f"{c} += 2", f"{c} = 1 - {c}", f"{c} += -1")
            test = self.pick(f"{c} {op} {lim}", f"{c} {op} {lim}", f"{lim} {op} {c}")
            others = [y for y in (*names, c) if y != lim]
            body = []
            for _ in range(self.pick(1, 1, 2)):
                body.append(self.pick(f"print({c})", f"print({self.num(others)})", self.change(others, ["m"])))
            if self.often(0.3):
                body += [f"if {self.cond(others)}:"] + self.ind([self.pick("break", "continue", step, "print(n)")])
            body.insert(self.pick(0, len(body), len(body)), step)
            if self.often(0.15):
                body += self.inside(names, own, depth, 1)
            return self.loop(f"while {test}:", body, names, own, depth)
        if kind == "still":
            c = self.pick("x", "n")
            test = self.pick("True", "1", f"{c} > {self.atom(['n'])}", f"{c} != 1", f"{c} >= 0", f"{c} == {c}", f"{c} < n", f"not {c}", "l", "len(l) > 1")
            body = [self.pick(f"print({c})", f"{c} += 1", f"{c} = {c} * 2", f"{c} = 3", f"if {c} == 2:\n        {c} = 5", self.change(names), "x = abs(x)").replace("\n    ", "\n") for _ in range(self.pick(1, 2, 2))]
            body = [y for t in body for y in t.split("\n")]
            return self.loop(f"while {test}:", body, names, own, depth)
        a = self.pick("x", "n", "2", "0")
        args = self.pick("0", "1", f"{a}, {a}", f"{a}, {a} + 1", "0, 1", "1, 3, 2", "2, 0", "1, 2", "len(l), len(l) + 1", "3, 2, -1", "0, 1, 5", "1, 1, -1", "0, 2")
        return self.loop(f"for {v} in range({args}):", self.inside(more, [], depth), names, own, depth)

    def program(self, name):
        names = ["x", "n"]
        body = []
        if self.often(0.3):
            body += self.body(names, [], 1, 1)
        body += self.scene(names, [], 2)
        if self.often(0.25):
            body += self.scene(names, [], 1)
        loops = [v for v in "ij" if any(y.strip().startswith(f"for {v} ") for y in body)]
        if loops and self.often(0.3):
            body.append(f"print({self.r.choice(loops)})")
        if self.often(0.4):
            body.append(f"print({self.num(names)})")
        body = ["    " + y for y in body]
        vars = gen_suggest.used(VARS, body)
        return [gen_suggest.function(name, body, vars), vars]


def at_random(seed, n):
    return [Gen(random.Random(seed * 1000003 + i)).program(f"f{i}") for i in range(n)]
