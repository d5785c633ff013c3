"""Pairs of similar fragments of code, for specs/AntiUnify.tla."""
import ast
import copy
import random

from gen_prog import BIN, CMP, NAMES, Gen


def render(t):
    """the text of a statement of specs/AntiUnifyMachine.tla"""
    k = t.get("k")
    c = t.get("c")
    if t["t"] in ("leaf", "name"):
        return t["s"]
    if t["t"] == "list":
        return ", ".join(map(render, k))
    return {"Name": "{}", "AssignName": "{}", "Const": "{}", "BinOp": "{} {} {}", "Call": "{}({})", "Assign": "{} = {}", "Expr": "{}"}[c].format(*map(render, k))


class Changer:
    def __init__(self, rnd):
        self.r = rnd

    def change(self, body):
        """a copy that differs a little"""
        body = copy.deepcopy(body)
        for _ in range(self.r.choice([0, 1, 1, 1, 2, 2, 3])):
            self.once(body)
        return body

    def once(self, body):
        r = self.r
        every = [n for s in body for n in ast.walk(s)]
        names = [n for n in every if isinstance(n, ast.Name)]
        x = r.random()
        if x < 0.3 and names:
            old, new = r.choice(names).id, r.choice(NAMES + ["q1", "q2"])
            for n in names:
                if n.id == old:
                    n.id = new
        elif x < 0.4 and names:
            r.choice(names).id = r.choice(NAMES + ["q1"])
        elif x < 0.55:
            consts = [n for n in every if isinstance(n, ast.Constant)]
            if consts:
                r.choice(consts).value = r.choice([0, 1, 2, 0.0, -0.0, True, False, None, "a", "b", b"a", ..., 1j, 1.5])
        elif x < 0.7:
            ops = [n for n in every if isinstance(n, (ast.BinOp, ast.AugAssign, ast.Compare, ast.BoolOp, ast.UnaryOp))]
            if ops:
                n = r.choice(ops)
                if isinstance(n, ast.Compare):
                    n.ops[0] = r.choice([ast.Lt, ast.Eq, ast.Is, ast.NotIn])()
                elif isinstance(n, ast.BoolOp):
                    n.op = r.choice([ast.And, ast.Or])()
                elif isinstance(n, ast.UnaryOp):
                    n.op = r.choice([ast.Not, ast.USub, ast.Invert])()
                else:
                    n.op = r.choice([ast.Add, ast.Mult, ast.Sub, ast.Pow])()
        elif x < 0.8:
            # an expression becomes another one
            spots = [(n, f) for n in every for f, v in ast.iter_fields(n) if isinstance(v, ast.expr) and isinstance(getattr(v, "ctx", ast.Load()), ast.Load) and not isinstance(n, (ast.JoinedStr, ast.FormattedValue, ast.pattern, ast.Starred))]
            if spots:
                n, f = r.choice(spots)
                setattr(n, f, ast.parse(Gen(r.random(), exotic=0.2).e(1), mode="eval").body)
        else:
            self.field(every)

    def field(self, every):
        """some other part of the syntax"""
        r = self.r
        n = r.choice(every)
        if isinstance(n, ast.Attribute):
            n.attr = r.choice(["x", "append", "q"])
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            n.name = r.choice(["f", "g", "q"])
        elif isinstance(n, ast.ImportFrom):
            n.level = r.choice([0, 1, 2])
        elif isinstance(n, ast.alias):
            n.asname = r.choice([None, "q", "x"])
        elif isinstance(n, ast.keyword):
            n.arg = r.choice([None, "key", "q"])
        elif isinstance(n, ast.arguments):
            n.vararg = r.choice([None, ast.arg("q"), ast.arg("xs")])
        elif isinstance(n, ast.FormattedValue):
            n.conversion = r.choice([-1, 114, 115])
        elif isinstance(n, ast.comprehension):
            n.is_async = 1 - n.is_async
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            n.names = ["q"] + n.names
        elif isinstance(n, ast.MatchClass) and n.kwd_attrs:
            n.kwd_attrs = ["q"] + n.kwd_attrs[1:]
        elif isinstance(n, ast.MatchSingleton):
            n.value = r.choice([None, True, False])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            n.name = r.choice(["q", "x"])
        elif isinstance(n, ast.MatchMapping):
            n.rest = r.choice([None, "q"])
        elif isinstance(n, ast.Raise):
            n.cause = r.choice([None, ast.Name("q")]) if n.exc else None
        elif isinstance(n, ast.Call):
            n.args.append(ast.Name("q"))
        elif isinstance(n, ast.Dict) and n.keys:
            n.keys[0] = r.choice([ast.Name("q"), None, ast.Constant(1)])
        elif isinstance(n, ast.Slice):
            n.step = r.choice([None, ast.Name("q"), ast.Constant(1)])
        elif isinstance(n, (ast.For, ast.While)):
            n.orelse = r.choice([[], [ast.Pass()]])
        elif isinstance(n, ast.ExceptHandler):
            n.name = r.choice([None, "q"]) if n.type else None
        elif isinstance(n, ast.AnnAssign):
            n.annotation = ast.Name("q")
        elif isinstance(n, ast.Assign):
            n.targets.append(ast.Name("q"))


def indented(body, depth):
    return "\n".join(" " * 4 * depth + line for line in ast.unparse(ast.Module(body, [])).split("\n"))


def pair(seed):
    """(text, places) of two or three similar fragments"""
    r = random.Random(seed)
    while True:
        g = Gen(r.random(), depth=r.choice([0, 1, 1, 2]), exotic=r.choice([0.1, 0.5, 0.9]))
        g.loop, g.fn = 1, 1
        lines = []
        for _ in range(r.choice([1, 1, 2, 3])):
            lines += g.s(g.depth, "    " * 2)
        try:
            first = ast.parse("def f():\n    while 1:\n" + "\n".join(lines)).body[0].body[0].body
            frags = [first] + [Changer(r).change(first) for _ in range(r.choice([1, 1, 1, 2]))]
            text, places = "", []
            shape = r.choice(["functions", "branches", "branches", "after"])
            head = lambda n: text.count("\n") + n
            if shape == "functions":
                for i, frag in enumerate(frags):
                    text += f"def f{i}({r.choice(['', 'a', 'a, b, i', 'x, n, xs'])}):\n    while True:\n"
                    places.append([head(0), "body", 0, len(frag)])
                    text += indented(frag, 2) + "\n"
                    text += r.choice(["", "    return x\n", "    print(a, n)\n"])
            else:
                text = f"def f({r.choice(['', 'a', 'a, b, i'])}):\n" + r.choice(["", "    x = xs = 1\n", "    n = acc = f = 0\n"]) + "    while True:\n"
                if shape == "branches":
                    text += "        if c:\n"
                    at = head(0)
                    for i, frag in enumerate(frags[:2]):
                        places.append([at, ["body", "orelse"][i], 0, len(frag)])
                        text += ("        else:\n" if i else "") + indented(frag, 3) + "\n"
                else:
                    at, start = head(0), 0
                    for frag in frags:
                        places.append([at, "body", start, start + len(frag)])
                        start += len(frag)
                        text += indented(frag, 2) + "\n"
                text += r.choice(["", "        print(x, n)\n", "    return a, x, n, i\n", "    print(q1, q2, xs, acc)\n"])
            ast.parse(text)
            compile(text, "x", "exec")
            return {"text": text, "places": places}
        except (SyntaxError, ValueError, AttributeError, TypeError):
            continue


def small(a, b):
    """the fragments of a case of the machine, in two functions"""
    return {"text": f"def f(x, y):\n    {render(a)}\ndef g(x, y):\n    {render(b)}\n", "places": [[1, "body", 0, 1], [3, "body", 0, 1]]}
