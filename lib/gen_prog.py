"""Random Python programs over (nearly) the whole syntax, for specs/Positions.tla and others."""
import random

NAMES = ["a", "b", "c", "i", "n", "xs", "ys", "acc", "f", "g", "C", "self", "x", "res"]
ATTRS = ["append", "x", "pop", "items", "keys", "count", "sort"]
BUILTINS = ["len", "range", "print", "sum", "max", "min", "abs", "sorted", "list", "dict", "set", "str", "int", "input", "enumerate", "zip", "map", "isinstance", "any", "all"]
BIN = ["+", "-", "*", "/", "//", "%", "**", "@", "<<", ">>", "&", "|", "^"]
CMP = ["<", "<=", ">", ">=", "==", "!=", "is", "is not", "in", "not in"]


class Gen:
    def __init__(self, seed, depth=3, exotic=0.3):
        self.r = random.Random(seed)
        self.depth, self.exotic = depth, exotic
        self.loop, self.fn, self.isasync, self.cls = 0, 0, False, 0

    # ---- expressions
    def name(self):
        return self.r.choice(NAMES)

    def const(self):
        return self.r.choice(
            ["0", "1", "2", "-1", "10", "1.5", '"s"', "'a'", '""', "True", "False", "None", "...", "b'x'", "1j", "[]", "{}", "()", "'%s'", "'ž'"]
        )

    def e(self, d=2):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.22:
            return self.name() if r.random() < 0.65 else self.const()
        if x < 0.36:
            op = r.choice(BIN[:6] if r.random() < 0.8 else BIN)
            return f"{self.a(d - 1)} {op} {self.a(d - 1)}"
        if x < 0.48:
            return f"{self.a(d - 1)} {r.choice(CMP)} {self.a(d - 1)}" + (f" {r.choice(CMP[:6])} {self.a(d - 1)}" if r.random() < 0.15 else "")
        if x < 0.58:
            op = r.choice([" and ", " or "])
            return op.join(self.p(d - 1) for _ in range(r.choice([2, 2, 3])))
        if x < 0.63:
            return f"not {self.p(d - 1)}"
        if x < 0.72:
            return f"{r.choice(BUILTINS + NAMES[:2] + ['f', 'g'])}({self.args(d - 1)})"
        if x < 0.77:
            return f"{self.name()}.{r.choice(ATTRS)}" + (f"({self.args(d - 1)})" if r.random() < 0.7 else "")
        if x < 0.83:
            return f"{self.name()}[{self.sub(d - 1)}]"
        if x < 0.87:
            return r.choice(["[%s]", "(%s,)", "{%s}"]) % ", ".join(self.e(d - 1) for _ in range(r.choice([1, 2, 3])))
        if x < 0.89:
            return "{" + ", ".join(f"{self.e(d-1)}: {self.e(d-1)}" for _ in range(r.choice([1, 2]))) + "}"
        if r.random() > self.exotic:
            return self.e(d - 1)
        return r.choice(
            [
                lambda: f"({self.e(d-1)} if {self.e(d-1)} else {self.e(d-1)})",
                lambda: f"(lambda {r.choice(['', 'a', 'a, b=1', '*a', 'x, /, y, *, z=2', '**kw'])}: {self.e(d-1)})",
                lambda: f"[{self.e(d-1)} for {self.tgt()} in {self.p(0)}{self.ifs(d)}]",
                lambda: f"{{{self.e(d-1)}: {self.e(d-1)} for {self.name()} in {self.p(0)}{self.ifs(d)}}}",
                lambda: f"sum({self.e(d-1)} for {self.name()} in {self.p(0)} for {self.name()} in {self.p(0)})",
                lambda: f"{{{self.e(d-1)} for {self.name()} in {self.p(0)}}}",
                lambda: f"({self.name()} := {self.e(d-1)})",
                lambda: f"-{self.p(d-1)}",
                lambda: f"~{self.p(d-1)}",
                lambda: f"f'{{{self.name()}}} {{{self.name()}!r:>{{{self.name()}}}}} x'",
                lambda: f"[*{self.p(0)}, {self.e(d-1)}]",
                lambda: f"{{**{self.p(0)}}}",
                lambda: f"{self.p(d-1)}.{r.choice(ATTRS)}",
                lambda: f"({self.e(d-1)})({self.args(d-1)})",
                lambda: (f"(yield {self.e(d-1)})" if self.fn and not self.cls else self.name()),
                lambda: (f"(yield from {self.p(0)})" if self.fn and not self.isasync and not self.cls else self.name()),
                lambda: (f"(await {self.p(0)})" if self.isasync else self.const()),
                lambda: '"a" "b"',
                lambda: f"not not {self.p(d-1)}",
                lambda: f"{self.p(0)} == {self.p(0)} == {self.p(0)}",
            ]
        )()

    def ifs(self, d):
        return "".join(f" if {self.p(d - 1)}" for _ in range(self.r.choice([0, 0, 1, 2])))

    def a(self, d):
        s = self.e(d)
        return s if s.isalnum() else f"({s})" if self.r.random() < 0.5 or " " in s else s

    def p(self, d):
        s = self.e(d)
        return s if s.replace("_", "").isalnum() else f"({s})"

    def sub(self, d):
        r = self.r
        return r.choice([self.e(d), "0", "-1", ":", f"{self.e(0)}:", f":{self.e(0)}:{self.e(0)}", f"{self.e(0)}, {self.e(0)}"])

    def args(self, d):
        r = self.r
        res = [self.p(d) for _ in range(r.choice([0, 1, 1, 2]))]
        if r.random() < 0.1:
            res.append(f"*{self.name()}")
        if r.random() < 0.1:
            res.append(f"key={self.p(d)}")
        if r.random() < 0.05:
            res.append(f"**{self.name()}")
        return ", ".join(res)

    def tgt(self):
        r = self.r
        x = r.random()
        if x < 0.7:
            return self.name()
        if x < 0.8:
            return f"{self.name()}, {self.name()}"
        if x < 0.85:
            return f"{self.name()}.{r.choice(ATTRS[1:2])}"
        if x < 0.92:
            return f"{self.name()}[{self.e(1)}]"
        if x < 0.95:
            return f"{self.name()}, *{self.name()}"
        return f"({self.name()}, ({self.name()}, {self.name()}))"

    # ---- statements: lists of lines
    def block(self, d, ind):
        n = self.r.choice([1, 1, 2, 2, 3, 4])
        res = []
        for _ in range(n):
            res += self.s(d, ind)
        return res

    def s(self, d, ind=""):
        r = self.r
        i = ind
        j = ind + "    "
        x = r.random()
        if d <= 0 or x < 0.42:
            return self.simple(i)
        if x < 0.60:
            res = [f"{i}if {self.e(2)}:"] + self.block(d - 1, j)
            while r.random() < 0.25:
                res += [f"{i}elif {self.e(2)}:"] + self.block(d - 1, j)
            if r.random() < 0.5:
                if r.random() < 0.3:
                    # the same statements in both branches
                    body = res[1:] if not any(l.startswith(i + "elif") for l in res) else self.block(d - 1, j)
                    res += [f"{i}else:"] + body
                else:
                    res += [f"{i}else:"] + self.block(d - 1, j)
            return res
        if x < 0.80:
            self.loop += 1
            if r.random() < 0.45:
                h = f"{i}while {r.choice(['True', self.e(2), self.name() + ' < len(' + self.name() + ')', self.name() + ' > 0'])}:"
            else:
                pre = "async " if self.isasync and r.random() < 0.2 else ""
                h = f"{i}{pre}for {self.tgt()} in {r.choice([self.e(1), 'range(' + self.p(1) + ')', 'range(len(' + self.name() + '))', 'range(' + self.p(0) + ', ' + self.p(0) + ', ' + self.p(0) + ')'])}:"
            body = self.block(d - 1, j)
            self.loop -= 1
            res = [h] + body
            if r.random() < 0.15:
                res += [f"{i}else:"] + self.block(d - 1, j)
            return res
        if x < 0.87:
            k = r.random()
            res = [f"{i}try:"] + self.block(d - 1, j)
            if k < 0.75:
                for q in range(r.choice([1, 1, 2])):
                    res += [r.choice([f"{i}except ValueError:", f"{i}except (OSError, KeyError) as {self.name()}:", f"{i}except Exception as e:"])] + self.block(d - 1, j)
                if r.random() < 0.2:
                    res += [f"{i}except:"] + self.block(d - 1, j)
                if r.random() < 0.3:
                    res += [f"{i}else:"] + self.block(d - 1, j)
            if k >= 0.75 or r.random() < 0.3:
                res += [f"{i}finally:"] + self.block(d - 1, j)
            return res
        if x < 0.90:
            pre = "async " if self.isasync and r.random() < 0.5 else ""
            w = r.choice([f"{self.p(1)} as {self.tgt()}", self.p(1), f"open({self.name()}) as {self.name()}, open({self.name()}) as {self.name()}"])
            return [f"{i}{pre}with {w}:"] + self.block(d - 1, j)
        if x < 0.93:
            res = [f"{i}match {self.e(1)}:"]
            pats = ["1", '"s"', "[a, b]", "[1, *xs]", '{"k": x, **res}', "C(x=1, y=b)", "1 | 2", "None", "(a, b) as c", "x if x > 1", "str() | int()", "-1"]
            for q in range(r.choice([1, 2, 3])):
                res += [f"{j}case {r.choice(pats)}:"] + self.block(d - 1, j + "    ")
            if r.random() < 0.4:
                res += [f"{j}case {r.choice(['_', 'n'])}:"] + self.block(d - 1, j + "    ")
            return res
        return self.definition(d, i)

    def params(self):
        r = self.r
        return r.choice(["", "a", "a, b", "xs, n", "n: int, xs: list = []", "a, *xs, **res", "a, /, b, *, c=1", "self, x", "x=f(1)", "n, acc=None"])

    def definition(self, d, i):
        r = self.r
        j = i + "    "
        if r.random() < 0.2:
            sl, sf, sa = self.loop, self.fn, self.isasync
            self.loop, self.fn, self.isasync = 0, 0, False
            self.cls += 1
            res = [f"{i}class {r.choice(['C', 'D'])}{r.choice(['', '(C)', '(Exception, metaclass=type)'])}:"]
            if r.random() < 0.3:
                res.append(f'{j}"""doc"""')
            for _ in range(r.choice([1, 2])):
                res += self.definition(d - 1, j) if r.random() < 0.6 else self.s(d - 1, j)
            self.cls -= 1
            self.loop, self.fn, self.isasync = sl, sf, sa
            return res
        sl, sf, sa, sc = self.loop, self.fn, self.isasync, self.cls
        self.loop, self.fn, self.cls = 0, 1, 0
        self.isasync = r.random() < 0.1
        res = [f"{i}@{self.name()}"] if r.random() < 0.1 else []
        res += [f"{i}{'async ' if self.isasync else ''}def {r.choice(['f', 'g', 'h', 'main'])}({self.params()}){r.choice(['', '', ' -> int', ' -> None'])}:"]
        if r.random() < 0.2:
            res.append(f'{j}"""doc"""')
        res += self.block(d - 1, j)
        if r.random() < 0.5:
            res += self.block(d - 1, j)
        self.loop, self.fn, self.isasync, self.cls = sl, sf, sa, sc
        return res

    def simple(self, i):
        r = self.r
        x = r.random()
        if x < 0.33:
            t = self.tgt()
            return [f"{i}{t} = {self.e(2)}"]
        if x < 0.45:
            return [f"{i}{r.choice([self.name(), self.name(), self.name() + '[0]', self.name() + '.x'])} {r.choice(['+', '-', '*', '//', '%'])}= {self.e(1)}"]
        if x < 0.49:
            n = self.name()
            return [f"{i}{n} = {n} {r.choice(BIN[:4])} {self.p(1)}"]
        if x < 0.68:
            return [f"{i}{r.choice(['print(' + self.args(1) + ')', self.name() + '.append(' + self.e(1) + ')', self.e(2), 'f(' + self.args(1) + ')'])}"]
        if x < 0.75:
            return [f"{i}pass"] if r.random() < 0.5 else [f"{i}{self.name()} = {self.name()}"]
        if x < 0.83 and self.loop:
            return [i + r.choice(["break", "continue"])]
        if x < 0.92 and self.fn:
            return [f"{i}return" + r.choice(["", " " + self.e(2), " " + self.name(), " None", " True"])] if not self.isasync else [f"{i}return"]
        if r.random() > self.exotic:
            return [f"{i}{self.name()} = {self.const()}"]
        opts = [
            f"{i}raise {r.choice(['ValueError(1)', 'E from None', 'self'])}",
            f"{i}raise",
            f"{i}assert {self.e(1)}, {self.e(0)}",
            f"{i}assert ({self.e(1)}, {self.e(0)})",
            f"{i}del {r.choice([self.name(), self.name() + '[0]', self.name() + ', ' + self.name()])}",
            f"{i}import {r.choice(['os', 'os.path', 'sys as n', 'math, random'])}",
            f"{i}from {r.choice(['math import *', 'os import path as x, sep', 'typing import List'])}" if not (self.fn or self.cls) else f"{i}from os import sep",
            f"{i}{self.name()}: int = {self.e(1)}",
            f"{i}{self.name()}: 'list[int]'",
            f"{i}a = b = {self.e(1)}",
            f"{i}a, b = b, a",
            f"{i}...",
            f"{i}'''text\n{i}more'''",
            f"{i}if {self.e(1)}: {self.name()} = 1",
            f"{i}x = 1; y = 2",
            f"{i}while {self.e(1)}: pass",
        ]
        if self.fn:
            opts += [f"{i}global G{r.choice('12')}", f"{i}global COUNT\n{i}COUNT += 1"]
        return [r.choice(opts)]

    def program(self, n=None):
        r = self.r
        res = []
        if r.random() < 0.2:
            res.append('"""Module."""')
        for _ in range(n or r.choice([1, 2, 3, 5])):
            x = r.random()
            if x < 0.55:
                res += self.definition(self.depth, "")
            else:
                res += self.s(self.depth, "")
            res += [""] * r.choice([0, 1, 2])
        return "\n".join(res) + r.choice(["\n", "\n", "", "\n\n"])


if __name__ == "__main__":
    import ast, sys

    bad = 0
    N = 2000
    for k in range(N):
        p = Gen(k).program()
        try:
            ast.parse(p)
        except SyntaxError as e:
            bad += 1
            if bad < 6:
                print(e, "\n", e.text)
    print(bad, "of", N, "do not parse")
    print(Gen(5).program())
