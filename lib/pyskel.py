"""Statements of a Python program as specs/Flow.tla wants them, from Python's own syntax tree."""
import ast

SILENT = (ast.Pass, ast.Global, ast.Nonlocal)


class Unsupported(Exception):
    pass


def end_line(n):
    return (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset)


def constant(e):
    """T or F for a condition whose value is written down, ? otherwise"""
    if isinstance(e, ast.Constant):
        return "T" if e.value else "F"
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return {"T": "F", "F": "T", "?": "?"}[constant(e.operand)]
    return "?"


class Skeleton:
    """nodes, atoms: [(role, position)], raises, units: [{kind, body, args, node}]"""

    def __init__(self, tree):
        self.nodes, self.atoms, self.asts, self.raises, self.units = [], [], [], [], []
        self.unit("module", tree, tree.body)

    def unit(self, kind, node, body):
        u = {"kind": kind, "args": 0, "node": node, "body": []}
        self.units.append(u)
        if kind == "function":
            u["args"] = self.atom(("args", node.lineno, node.col_offset), node.args, False)
        # astroid keeps the docstring apart
        u["body"] = self.many(body[1:] if ast.get_docstring(node, clean=False) is not None else body)

    def atom(self, key, node, raises=True):
        self.atoms.append(key)
        self.asts.append(node)
        self.raises.append(raises)
        return len(self.atoms)

    def expr(self, e):
        return self.atom(end_line(e), e, not isinstance(e, ast.Constant))

    def many(self, body):
        return [self.stmt(s) for s in body]

    def add(self, **kw):
        self.nodes.append(kw)
        return len(self.nodes)

    def stmt(self, s):
        if isinstance(s, (ast.If, ast.While)):
            a = self.expr(s.test)
            return self.add(k="if" if isinstance(s, ast.If) else "while", a=a, body=self.many(s.body), orelse=self.many(s.orelse), c=constant(s.test))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            a = self.expr(s.iter)
            b = self.atom(end_line(s.target), s.target)
            return self.add(k="for", a=a, b=b, body=self.many(s.body), orelse=self.many(s.orelse))
        if isinstance(s, (ast.With, ast.AsyncWith)):
            at = []
            for it in s.items:
                at.append(self.expr(it.context_expr))
                if it.optional_vars is not None:
                    at.append(self.atom(end_line(it.optional_vars), it.optional_vars))
            return self.add(k="with", **{"as": at}, body=self.many(s.body))
        if isinstance(s, ast.Try):
            body = self.many(s.body)
            hs = []
            for h in s.handlers:
                a = self.atom(("name", h.lineno, h.col_offset), h, False) if h.name is not None else 0
                hs.append({"a": a, "body": self.many(h.body), "all": h.type is None, "names": names(h.type)})
            return self.add(k="try", body=body, hs=hs, orelse=self.many(s.orelse), final=self.many(s.finalbody))
        if isinstance(s, ast.TryStar):
            raise Unsupported("except*")
        if isinstance(s, ast.Match):
            a = self.expr(s.subject)
            cs = []
            for c in s.cases:
                p = self.atom(end_line(c.pattern), c.pattern, False)  # executed when it matches
                g = self.expr(c.guard) if c.guard is not None else 0
                irr = c.guard is None and irrefutable(c.pattern)
                cs.append({"a": p, "g": g, "body": self.many(c.body), "irr": irr})
            return self.add(k="match", a=a, cases=cs)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            a = self.atom(("def", s.lineno, s.col_offset), s)
            n = self.add(k="simple", a=a)
            self.unit("class" if isinstance(s, ast.ClassDef) else "function", s, s.body)
            return n
        k = {ast.Return: "return", ast.Raise: "raise", ast.Break: "break", ast.Continue: "continue"}.get(type(s), "simple")
        silent = isinstance(s, SILENT + (ast.Break, ast.Continue)) or (isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant)))
        silent = silent or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))
        more = {}
        if k == "raise":
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            more["exc"] = e.id if isinstance(e, ast.Name) else "?"
        return self.add(k=k, a=self.atom(end_line(s), s, not silent), **more)


def names(e):
    if isinstance(e, ast.Tuple):
        return [n for x in e.elts for n in names(x)]
    return [e.id] if isinstance(e, ast.Name) else []


def irrefutable(p):
    if isinstance(p, ast.MatchAs):
        return p.pattern is None or irrefutable(p.pattern)
    return isinstance(p, ast.MatchOr) and any(irrefutable(q) for q in p.patterns)


def render(toks):
    """Text of a function made of tokens of specs/FlowMachine.tla, which lib/liveflow.py can run.

    Every part executed has a number."""
    out, stack, n = ["def f():"], [], 0
    ind = [1]
    need = [True]  # does the block still need a statement?

    def num():
        nonlocal n
        n += 1
        return n

    def put(text):
        out.append("    " * ind[0] + text)

    def fill():
        if need[-1]:
            put(f"A({num()})")
            need[-1] = False

    def block(head, dedent=0):
        ind[0] -= dedent
        put(head)
        ind[0] += 1
        if dedent:
            need.pop()
        need.append(True)

    def close():
        fill()
        k = stack.pop()
        ind[0] -= 2 if k == "match" else 1
        need.pop()

    for t in toks:
        if t == ".":
            close()
            continue
        if t in ("else", "finally", "except", "exceptall"):
            fill()
            block({"else": "else:", "finally": "finally:", "exceptall": "except:", "except": "except H({}):"}[t].format(num() if t == "except" else 0), 1)
            continue
        if t in ("case", "guarded", "default"):
            if not out[-1].lstrip().startswith("match"):
                fill()
                ind[0] -= 1
                need.pop()
            head = {"case": "case M.m{0}:", "guarded": "case M.m{0} if A({0}):", "default": "case _:"}
            block(head[t].format(num() if t != "default" else 0))
            continue
        need[-1] = False
        if t == "s":
            put(f"A({num()})")
        elif t in ("return", "raise"):
            put(f"{t} A({num()})")
        elif t in ("break", "continue", "pass"):
            put(t)
        elif t == "match":
            put(f"match A({num()}):")
            ind[0] += 1
            stack.append(t)
            need.append(True)
        else:
            stack.append(t)
            i = num()
            block({"if": f"if A({i}):", "while": f"while A({i}):", "for": f"for v[{i}] in A({i}):", "with": f"with A({i}):", "try": "try:"}[t])
    while stack:
        close()
    fill()
    if toks[-1] not in ("return", "raise"):
        put(f"A({num()})")
    return "\n".join(out) + "\n"
