"""Translates Python text to the records of specs/MiniPy.tla and back."""
import ast
from fractions import Fraction

BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**"}
CMP = {
    ast.Lt: "<", ast.Gt: ">", ast.LtE: "<=", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not",
}  # fmt: skip
UN = {ast.Not: "not", ast.USub: "-", ast.UAdd: "+"}
LIMIT = 2000
OTHER = {"k": "other"}
LISTS = False  # are lists and loops translated, or left to be opaque?
METHODS = ("append", "clear", "reverse", "pop", "insert", "remove", "extend")


def num(v):
    """the value record of a Python value"""
    if v is None:
        return {"t": "none", "n": 0, "d": 1}
    if isinstance(v, str) and len(v) == 1:
        return {"t": "s", "n": ord(v), "d": 1}
    if isinstance(v, list):
        return {"t": "L", "n": 0, "d": 1, "es": [num(x) for x in v]}
    if not isinstance(v, (bool, int, float)) or v != v or v in (float("inf"), float("-inf")):
        return {"t": "u", "n": 0, "d": 1}
    f = Fraction(v)
    if abs(f.numerator) > LIMIT * 50 or f.denominator > 64:
        return {"t": "u", "n": 0, "d": 1}
    return {"t": "b" if isinstance(v, bool) else "i" if isinstance(v, int) else "f", "n": f.numerator, "d": f.denominator}


def expr(e, opaque=None):
    """opaque: collects the texts of the subexpressions that stand for variables"""
    go = lambda x: expr(x, opaque)  # noqa: E731
    if isinstance(e, ast.Constant):
        v = num(e.value)
        return {"k": "const", "v": v} if v["t"] != "u" and abs(v["n"]) <= LIMIT else OTHER
    if isinstance(e, ast.Name):
        return {"k": "name", "n": e.id}
    if isinstance(e, ast.BinOp) and type(e.op) in BIN:
        return {"k": "bin", "op": BIN[type(e.op)], "l": go(e.left), "r": go(e.right)}
    if isinstance(e, ast.UnaryOp) and type(e.op) in UN:
        return {"k": "un", "op": UN[type(e.op)], "e": go(e.operand)}
    if isinstance(e, ast.BoolOp):
        return {"k": "bool", "op": "and" if isinstance(e.op, ast.And) else "or", "es": [go(v) for v in e.values]}
    if isinstance(e, ast.IfExp):
        return {"k": "if", "c": go(e.test), "a": go(e.body), "b": go(e.orelse)}
    if isinstance(e, ast.Compare):
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)):
            c = e.comparators[0]
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "range" and 1 <= len(c.args) <= 3 and not c.keywords:
                a = [go(x) for x in c.args]
                zero, one = {"k": "const", "v": num(0)}, {"k": "const", "v": num(1)}
                a = [zero, a[0], one] if len(a) == 1 else a + [one] if len(a) == 2 else a
                return {"k": "range", "e": go(e.left), "from": a[0], "to": a[1], "step": a[2], "neg": isinstance(e.ops[0], ast.NotIn)}
            if LISTS and isinstance(c, ast.Name):
                return {"k": "in", "e": go(e.left), "l": go(c), "neg": isinstance(e.ops[0], ast.NotIn)}
        if all(type(o) in CMP for o in e.ops):
            return {"k": "cmp", "l": go(e.left), "ops": [CMP[type(o)] for o in e.ops], "rs": [go(c) for c in e.comparators]}
        return OTHER
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords and not any(isinstance(a, ast.Starred) for a in e.args):
        if e.func.id in ("abs", "max", "min", "int", "float", "bool", "ord"):
            return {"k": "call", "f": e.func.id, "es": [go(a) for a in e.args]}
        if LISTS and e.func.id in ("len", "sum"):
            return {"k": "call", "f": e.func.id, "es": [go(a) for a in e.args]}
    if LISTS and isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and not isinstance(e.slice, (ast.Slice, ast.Tuple)):
        return {"k": "sub", "l": go(e.value), "i": go(e.slice)}
    if opaque is not None and isinstance(e, (ast.Subscript, ast.Attribute, ast.Call)):
        text = ast.unparse(e)
        opaque.add(text)
        return {"k": "name", "n": text}
    return OTHER


def block(stmts, opaque=None):
    return [stmt(s, opaque) for s in stmts]


def new_list(e, go):
    """the parts of the list e makes, or None"""
    if isinstance(e, ast.List) and not any(isinstance(x, ast.Starred) for x in e.elts):
        return [{"k": "elem", "e": go(x)} for x in e.elts]
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and isinstance(e.slice, ast.Slice):
        if e.slice.lower is None and e.slice.upper is None and e.slice.step is None:
            return [{"k": "all", "e": go(e.value)}]
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = [[{"k": "all", "e": go(x)}] if isinstance(x, ast.Name) else new_list(x, go) for x in (e.left, e.right)]
        if a is not None and b is not None and (isinstance(e.left, ast.List) or isinstance(e.right, ast.List)):
            return a + b
    if isinstance(e, ast.Call) and not e.keywords:
        if isinstance(e.func, ast.Name) and e.func.id == "list" and len(e.args) == 1 and isinstance(e.args[0], ast.Name):
            return [{"k": "all", "e": go(e.args[0])}]
        if isinstance(e.func, ast.Attribute) and e.func.attr == "copy" and isinstance(e.func.value, ast.Name) and not e.args:
            return [{"k": "all", "e": go(e.func.value)}]
    return None


def over(e, go):
    """what a for statement iterates over"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "range" and 1 <= len(e.args) <= 3 and not e.keywords:
        a = [go(x) for x in e.args]
        zero, one = {"k": "const", "v": num(0)}, {"k": "const", "v": num(1)}
        a = [zero, a[0], one] if len(a) == 1 else a + [one] if len(a) == 2 else a
        return {"k": "range", "from": a[0], "to": a[1], "step": a[2]}
    if isinstance(e, ast.Name):
        return {"k": "list", "e": go(e)}
    return None


def loop_stmt(s, opaque, go):
    """statements about lists and loops"""
    at = getattr(s, "lineno", 0)
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        c = s.value
        if isinstance(c.func, ast.Name) and c.func.id == "print" and len(c.args) == 1 and not c.keywords:
            return {"k": "print", "e": go(c.args[0])}
        if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.attr in METHODS and not c.keywords:
            return {"k": "do", "m": c.func.attr, "l": go(c.func.value), "es": [go(a) for a in c.args], "at": at}
    if isinstance(s, ast.Assign) and len(s.targets) == 1:
        t = s.targets[0]
        if isinstance(t, ast.Name):
            parts = new_list(s.value, go)
            if parts is not None:
                return {"k": "new", "n": t.id, "parts": parts}
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and not isinstance(t.slice, (ast.Slice, ast.Tuple)):
            return {"k": "setitem", "l": go(t.value), "i": go(t.slice), "e": go(s.value), "at": at}
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Subscript) and isinstance(s.target.value, ast.Name) and type(s.op) in BIN:
        t = s.target
        if not isinstance(t.slice, (ast.Slice, ast.Tuple)):
            e = {"k": "bin", "op": BIN[type(s.op)], "l": go(t), "r": go(s.value)}
            return {"k": "setitem", "l": go(t.value), "i": go(t.slice), "e": e, "at": at}
    if isinstance(s, ast.Delete) and len(s.targets) == 1:
        t = s.targets[0]
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and not isinstance(t.slice, (ast.Slice, ast.Tuple)):
            return {"k": "delitem", "l": go(t.value), "i": go(t.slice), "at": at}
    if isinstance(s, ast.While):
        return {"k": "while", "at": at, "c": go(s.test), "body": block(s.body, opaque), "orelse": block(s.orelse, opaque)}
    if isinstance(s, ast.For) and isinstance(s.target, ast.Name):
        o = over(s.iter, go)
        if o is not None:
            return {"k": "for", "at": at, "over": o, "n": s.target.id, "body": block(s.body, opaque), "orelse": block(s.orelse, opaque)}
    return None


def stmt(s, opaque=None):
    res = plain_stmt(s, opaque)
    if LISTS and "at" not in res:
        res["at"] = getattr(s, "lineno", 0)
    return res


def plain_stmt(s, opaque=None):
    go = lambda x: expr(x, opaque)  # noqa: E731
    if isinstance(s, ast.Pass):
        return {"k": "pass"}
    if LISTS and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and s.value.args and isinstance(s.value.args[0], ast.Constant)):
        res = loop_stmt(s, opaque, go)
        if res is not None:
            return res
    if isinstance(s, ast.Expr):
        c = s.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "print" and len(c.args) == 1:
            if isinstance(c.args[0], ast.Constant) and isinstance(c.args[0].value, str):
                return {"k": "mark", "m": c.args[0].value}
        return {"k": "expr", "e": go(c)}
    if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
        v = go(s.value)
        return {"k": "assign", "ns": [t.id for t in s.targets], "es": [v for _ in s.targets]}
    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
        return {"k": "assign", "ns": [s.target.id], "es": [go(s.value)]}
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and type(s.op) in BIN:
        return {"k": "aug", "n": s.target.id, "op": BIN[type(s.op)], "e": go(s.value)}
    if isinstance(s, ast.If):
        return {"k": "if", "c": go(s.test), "body": block(s.body, opaque), "orelse": block(s.orelse, opaque)}
    if isinstance(s, ast.Return):
        return {"k": "return", "e": go(s.value) if s.value is not None else {"k": "const", "v": num(None)}}
    if isinstance(s, (ast.Break, ast.Continue)):
        return {"k": "jump", "j": "break" if isinstance(s, ast.Break) else "continue"}
    if isinstance(s, ast.Assert):
        return {"k": "assert", "c": go(s.test)}
    return {"k": "other"}


def parse(text):
    """the expression text says, or None"""
    try:
        return ast.parse("(" + text + "\n)", mode="eval").body
    except (SyntaxError, ValueError):
        return None


# ---- back to text (the cases SuggestMachine makes)
UNBIN = {v: k for k, v in BIN.items()}
UNCMP = {v: k for k, v in CMP.items()}


def const(v):
    if v["t"] == "none":
        return ast.Constant(None)
    if v["t"] == "b":
        return ast.Constant(bool(v["n"]))
    x = v["n"] if v["t"] == "i" else v["n"] / v["d"]
    return ast.UnaryOp(ast.USub(), ast.Constant(-x)) if x < 0 else ast.Constant(x)


def tree(e):
    k = e["k"]
    if k == "const":
        return const(e["v"])
    if k == "name":
        return ast.Name(e["n"], ast.Load())
    if k == "bin":
        return ast.BinOp(tree(e["l"]), UNBIN[e["op"]](), tree(e["r"]))
    if k == "un":
        return ast.UnaryOp({"not": ast.Not, "-": ast.USub, "+": ast.UAdd}[e["op"]](), tree(e["e"]))
    if k == "bool":
        return ast.BoolOp(ast.And() if e["op"] == "and" else ast.Or(), [tree(x) for x in e["es"]])
    if k == "cmp":
        return ast.Compare(tree(e["l"]), [UNCMP[o]() for o in e["ops"]], [tree(x) for x in e["rs"]])
    if k == "if":
        return ast.IfExp(tree(e["c"]), tree(e["a"]), tree(e["b"]))
    if k == "call":
        return ast.Call(ast.Name(e["f"], ast.Load()), [tree(x) for x in e["es"]], [])
    if k == "sub":
        return ast.Subscript(tree(e["l"]), tree(e["i"]), ast.Load())
    if k == "range":
        rng = ast.Call(ast.Name("range", ast.Load()), [tree(e[x]) for x in ("from", "to", "step")], [])
        return ast.Compare(tree(e["e"]), [ast.NotIn() if e["neg"] else ast.In()], [rng])
    raise ValueError(k)


def text(e):
    return ast.unparse(tree(e))


def iterated(o):
    if o["k"] == "list":
        return text(o["e"])
    a = [text(o[x]) for x in ("from", "to", "step")]
    if a[2] == "1":
        a.pop()
        if a[0] == "0":
            a.pop(0)
    return f"range({', '.join(a)})"


def lines(b, ind="    "):
    res = []
    for s in b:
        k = s["k"]
        if k == "assign":
            res.append(f"{ind}{' = '.join(s['ns'])} = {text(s['es'][0])}")
        elif k == "aug":
            res.append(f"{ind}{s['n']} {s['op']}= {text(s['e'])}")
        elif k == "mark":
            res.append(f"{ind}print({s['m']!r})")
        elif k == "print":
            res.append(f"{ind}print({text(s['e'])})")
        elif k == "return":
            res.append(f"{ind}return {text(s['e'])}")
        elif k == "jump":
            res.append(ind + s["j"])
        elif k == "pass":
            res.append(ind + "pass")
        elif k == "new":
            ps = [f"[{text(p['e'])}]" if p["k"] == "elem" else text(p["e"]) for p in s["parts"]]
            res.append(f"{ind}{s['n']} = {' + '.join(ps) or '[]'}")
        elif k == "setitem":
            res.append(f"{ind}{text(s['l'])}[{text(s['i'])}] = {text(s['e'])}")
        elif k == "delitem":
            res.append(f"{ind}del {text(s['l'])}[{text(s['i'])}]")
        elif k == "do":
            res.append(f"{ind}{text(s['l'])}.{s['m']}({', '.join(map(text, s['es']))})")
        elif k in ("if", "while", "for"):
            res.append(f"{ind}for {s['n']} in {iterated(s['over'])}:" if k == "for" else f"{ind}{k} {text(s['c'])}:")
            res += lines(s["body"], ind + "    ") or [ind + "    pass"]
            if s["orelse"]:
                res.append(f"{ind}else:")
                res += lines(s["orelse"], ind + "    ")
        else:
            raise ValueError(k)
    return res
