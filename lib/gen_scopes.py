"""Random nestings of scopes: tokens of specs/BindMachine.tla and programs with more constructs."""

NAMES = ["x", "y", "z"]


class ScopeGen:
    def __init__(self, rnd):
        self.r = rnd

    def tokens(self, n):
        r = self.r
        toks, stack = [], ["module"]
        names = ["x"] if r.random() < 0.4 else ["x", "y"]
        fresh = False
        while len(toks) < n:
            v = r.choice(names)
            top = stack[-1]
            expr = top in "LK"
            x = r.random()
            if x < 0.15 and len(stack) > 1:
                toks.append(".")
                stack.pop()
                fresh = False
                continue
            if x < 0.30 and not expr:
                t = r.choice(["D", "C", "D", "D:" + v, "C"])
            elif x < 0.45:
                t = r.choice(["L:", "K:", "K:"]) + v
            elif x < 0.6 and fresh and top in "DC":
                toks.append(r.choice(["g:", "n:"]) + v)
                continue
            elif expr:
                t = r.choice(["r:", "r:", "w:"]) + v
            else:
                t = r.choice(["r:", "r:", "b:", "b:", "d:", "w:", "a:"]) + v
            if t[0] == "a" and top != "D" or t[0] == "w" and top == "C":
                continue
            toks.append(t)
            fresh = t[0] in "DC"
            if t[0] in "DCLK":
                stack.append(t[0])
        return toks

    # ---- whole programs
    def n(self):
        return self.r.choice(NAMES)

    def e(self, d=2):
        r = self.r
        if d <= 0 or r.random() < 0.35:
            return r.choice([self.n(), self.n(), "1", "len", "print"])
        return r.choice(
            [
                lambda: f"({self.e(d-1)} + {self.e(d-1)})",
                lambda: f"{self.n()}.{r.choice(['append', 'a'])}({self.e(d-1)})",
                lambda: f"{self.n()}[{self.e(d-1)}]",
                lambda: f"f({self.e(d-1)}, k={self.e(d-1)})",
                lambda: f"(lambda {self.params()}: {self.e(d-1)})",
                lambda: f"[{self.e(d-1)} {self.comp(d)}]",
                lambda: f"{{{self.e(d-1)}: {self.e(d-1)} {self.comp(d)}}}",
                lambda: f"{{{self.e(d-1)} {self.comp(d)}}}",
                lambda: f"sum({self.e(d-1)} {self.comp(d)})",
                lambda: f"({self.n()} := {self.e(d-1)})",
                lambda: f"f'{{{self.n()}}}{{{self.e(0)}:{{{self.n()}}}}}'",
                lambda: f"({self.e(d-1)} if {self.e(d-1)} else {self.e(d-1)})",
                lambda: f"{self.n()}",
            ]
        )()

    def comp(self, d):
        r = self.r
        res = []
        for _ in range(r.choice([1, 1, 2])):
            t = r.choice([self.n(), f"({self.n()}, {self.n()})", f"{self.n()}, *{self.n()}"])
            res.append(f"for {t} in {r.choice([self.n(), self.e(d - 1), 'range(3)'])}")
            if r.random() < 0.4:
                res.append(f"if {self.e(d - 1)}")
        return " ".join(res)

    def params(self, ann=False):
        r = self.r
        a = NAMES[:]
        r.shuffle(a)
        t = (lambda: f": {self.n()}") if ann and r.random() < 0.4 else (lambda: "")
        return r.choice(
            [
                "", "", f"{a[0]}{t()}", f"{a[0]}={self.n()}", f"{a[0]}{t()}, {a[1]}={self.e(0)}", f"*{a[0]}{t()}, {a[1]}={self.n()}", f"**{a[0]}{t()}",
                f"{a[0]}, /, {a[1]}{t()}, *, {a[2]}={self.n()}", f"{a[0]}, *{a[1]}, **{a[2]}",
            ]
        )  # fmt: skip

    def target(self):
        r = self.r
        return r.choice([self.n(), self.n(), f"{self.n()}, {self.n()}", f"({self.n()}, *{self.n()})", f"[{self.n()}, {self.n()}]", f"{self.n()}.a", f"{self.n()}[{self.e(1)}]"])

    def block(self, d, ind, scope, declare=False):
        r = self.r
        out = []
        if declare and r.random() < 0.4:
            out.append(f"{ind}{r.choice(['global', 'global', 'nonlocal'])} {r.choice([self.n(), 'x, y'])}")
        for _ in range(r.choice([1, 2, 2, 3])):
            out += self.stmt(d, ind, scope)
        return out

    def stmt(self, d, i, scope):
        r = self.r
        j = i + "    "
        x = r.random()
        if d > 0 and x < 0.45:
            k = r.randint(0, 9)
            if k <= 2:
                deco = [f"{i}@{self.e(1)}"] if r.random() < 0.3 else []
                ret = f" -> {self.n()}" if r.random() < 0.2 else ""
                name = r.choice([self.n(), "f", "g"])
                return deco + [f"{i}{r.choice(['', '', 'async '])}def {name}({self.params(True)}){ret}:"] + self.block(d - 1, j, "def", True)
            if k <= 4:
                deco = [f"{i}@{self.n()}"] if r.random() < 0.3 else []
                bases = r.choice(["", "", f"({self.n()})", f"({self.e(1)}, metaclass={self.n()})"])
                return deco + [f"{i}class {r.choice([self.n(), 'C'])}{bases}:"] + self.block(d - 1, j, "class", True)
            if k == 5:
                return [f"{i}for {self.target()} in {self.e(1)}:"] + self.block(d - 1, j, scope) + ([f"{i}else:"] + self.block(d - 1, j, scope) if r.random() < 0.3 else [])
            if k == 6:
                return [f"{i}try:"] + self.block(d - 1, j, scope) + [f"{i}except {self.n()} as {self.n()}:"] + self.block(d - 1, j, scope) + ([f"{i}finally:"] + self.block(d - 1, j, scope) if r.random() < 0.3 else [])
            if k == 7:
                return [f"{i}with {self.e(1)} as {self.target()}, {self.e(0)}:"] + self.block(d - 1, j, scope)
            if k == 8:
                pats = [f"{self.n()}", "[x, *y]", "{'k': y, **z}", "C(x, a=y)", "[1, [x, _]]", "(1 | 2) as x", "C.x"]
                return [f"{i}match {self.e(1)}:", f"{j}case {r.choice(pats[1:])}{r.choice(['', ' if ' + self.e(1)])}:"] + self.block(d - 1, j + "    ", scope) + [f"{j}case {r.choice(pats[:1] + ['_'])}:"] + self.block(d - 1, j + "    ", scope)
            return [f"{i}{r.choice(['if', 'while'])} {self.e(1)}:"] + self.block(d - 1, j, scope) + ([f"{i}else:"] + self.block(d - 1, j, scope) if r.random() < 0.4 else [])
        opts = [
            lambda: f"{self.target()} = {self.e(2)}",
            lambda: f"{self.target()} = {self.n()} = {self.e(1)}",
            lambda: f"{self.n()} += {self.e(1)}",
            lambda: f"{self.n()}.a += {self.e(1)}",
            lambda: f"{self.n()}: {self.n()} = {self.e(1)}",
            lambda: f"{self.n()}: {self.n()}",
            lambda: f"del {r.choice([self.n(), self.n() + '[0]', self.n() + '.a', 'x, y'])}",
            lambda: f"import {r.choice(['x', 'x.y', 'os as z', 'x.y as z', 'y, z'])}",
            lambda: f"from os import {r.choice(['x', 'path as y', 'x, y as z'])}",
            lambda: f"{self.e(2)}",
            lambda: f"assert {self.e(1)}, {self.e(1)}",
            lambda: f"raise {self.n()} from {self.n()}",
        ]
        if scope == "def":
            opts += [lambda: f"return {self.e(2)}", lambda: f"yield {self.e(1)}"]
        return [i + r.choice(opts)()]

    def program(self):
        return "\n".join(self.block(3, "", "module") + self.block(3, "", "module")) + "\n"
