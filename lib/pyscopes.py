"""Scopes, occurrences of names and declarations of a Python program, for specs/Bind.tla.

Only the syntax is translated here; which scope a name belongs to is decided by the specification.
"""
import ast

COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


class Unsupported(Exception):
    pass


class Scopes:
    def __init__(self, text):
        self.tree = ast.parse(text)
        self.ss = [{"kind": "module", "parent": 0, "part": ""}]
        self.nodes = [self.tree]  # ast nodes of the scopes
        self.os, self.ds = [], []
        self.where = []  # (line, column or -1) of the occurrences
        for s in self.tree.body:
            self.go(s, 1, "body")

    def occ(self, name, scope, part, access, line, col=-1, walrus=False):
        if name.startswith("__") and not name.endswith("__"):
            raise Unsupported("private name")  # mangled in classes
        self.os.append({"name": name, "scope": scope, "part": part, "access": access, "walrus": walrus})
        self.where.append((line, col))

    def new(self, node, kind, scope, part):
        self.ss.append({"kind": kind, "parent": scope, "part": part})
        self.nodes.append(node)
        return len(self.ss)

    def many(self, ns, scope, part):
        for n in ns:
            if n is not None:
                self.go(n, scope, part)

    def args(self, a, scope):
        self.many(a.defaults, scope, "default")
        self.many(a.kw_defaults, scope, "default")
        for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
            if x is not None:
                self.occ(x.arg, scope, "body", "bind", x.lineno)
                if x.annotation is not None:
                    self.go(x.annotation, scope, "annotation")

    def go(self, n, s, part):
        if getattr(n, "type_params", None):
            raise Unsupported("type parameters")
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.occ(n.name, s, part, "bind", n.lineno)
            k = self.new(n, "function", s, part)
            self.many(n.decorator_list, k, "decorator")
            self.args(n.args, k)
            if n.returns is not None:
                self.go(n.returns, k, "annotation")
            self.many(n.body, k, "body")
        elif isinstance(n, ast.ClassDef):
            self.occ(n.name, s, part, "bind", n.lineno)
            k = self.new(n, "class", s, part)
            self.many(n.decorator_list, k, "decorator")
            self.many(n.bases + [x.value for x in n.keywords], k, "base")
            self.many(n.body, k, "body")
        elif isinstance(n, ast.Lambda):
            k = self.new(n, "lambda", s, part)
            self.args(n.args, k)
            self.go(n.body, k, "body")
        elif isinstance(n, COMP):
            k = self.new(n, "comp", s, part)
            for i, g in enumerate(n.generators):
                self.go(g.iter, k, "body" if i else "firstiter")
                self.go(g.target, k, "body")
                self.many(g.ifs, k, "body")
            self.many([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt], k, "body")
        elif isinstance(n, ast.NamedExpr):
            self.occ(n.target.id, s, part, "bind", n.target.lineno, n.target.col_offset, walrus=True)
            self.go(n.value, s, part)
        elif isinstance(n, ast.Name):
            acc = {ast.Store: "bind", ast.Load: "read", ast.Del: "del"}[type(n.ctx)]
            self.occ(n.id, s, part, acc, n.lineno, n.col_offset)
        elif isinstance(n, ast.AugAssign):
            if isinstance(n.target, ast.Name):
                self.occ(n.target.id, s, part, "read", n.target.lineno, n.target.col_offset)
            self.go(n.target, s, part)
            self.go(n.value, s, part)
        elif isinstance(n, ast.AnnAssign):
            self.go(n.annotation, s, part)
            if n.value is None and isinstance(n.target, ast.Name):
                self.occ(n.target.id, s, part, "declare", n.target.lineno, n.target.col_offset)
            else:
                self.go(n.target, s, part)
            if n.value is not None:
                self.go(n.value, s, part)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for x in n.names:
                if x.startswith("__") and not x.endswith("__"):
                    raise Unsupported("private name")
                self.ds.append({"name": x, "scope": s, "kind": type(n).__name__.lower()})
        elif isinstance(n, ast.Import):
            for a in n.names:
                self.occ(a.asname or a.name.split(".")[0], s, part, "bind", n.lineno)
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.name == "*":
                    raise Unsupported("star import")
                self.occ(a.asname or a.name, s, part, "bind", n.lineno)
        elif isinstance(n, ast.ExceptHandler):
            if n.type is not None:
                self.go(n.type, s, part)
            if n.name is not None:
                self.occ(n.name, s, part, "bind", n.lineno)
            self.many(n.body, s, part)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)):
            if isinstance(n, ast.MatchAs) and n.pattern is not None:
                self.go(n.pattern, s, part)
            if n.name is not None:
                self.occ(n.name, s, part, "bind", n.lineno)
        elif isinstance(n, ast.MatchMapping):
            self.many(n.keys + n.patterns, s, part)
            if n.rest is not None:
                self.occ(n.rest, s, part, "bind", n.lineno)
        else:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "globals"):
                raise Unsupported("locals()")
            self.many(ast.iter_child_nodes(n), s, part)


def render(toks, brackets="()"):
    """Text of a program given by tokens of specs/BindMachine.tla, one item per line."""
    out, stack, k = [], ["module"], 0

    def ind():
        return "    " * (len(stack) - 1)

    def close():
        kind = stack[-1]
        if kind in ("function", "class"):
            out.append(ind() + "pass")
            stack.pop()
        else:
            stack.pop()
            out.append(ind() + ("))" if kind[0] == "lambda" else f") for {kind[1]} in ({kind[1]}){brackets[1]}") + ("," if stack[-1] not in STMT else ""))

    STMT = ("module", "function", "class")
    for t in toks:
        e = stack[-1] not in STMT
        c, n = t[0], t[2:]
        sep = "," if e else ""
        if c == "b":
            out.append(f"{ind()}{n} = 1")
        elif c == "r":
            out.append(f"{ind()}{n}{sep}")
        elif c == "d":
            out.append(f"{ind()}del {n}")
        elif c == "a":
            out.append(f"{ind()}{n}: int")
        elif c == "w":
            out.append(f"{ind()}({n} := 1){sep}")
        elif c in "gn":
            out.append(f"{ind()}{'global' if c == 'g' else 'nonlocal'} {n}")
        elif c == "D":
            k += 1
            out.append(f"{ind()}def f{k}({n + '=' + n if n else ''}):")
            stack.append("function")
        elif c == "C":
            k += 1
            out.append(f"{ind()}class C{k}:")
            stack.append("class")
        elif c == "L":
            out.append(f"{ind()}(lambda {n}={n}: (")
            stack.append(("lambda", n))
            out.append(ind() + "0,")
        elif c == "K":
            out.append(f"{ind()}{brackets[0]}(")
            stack.append(("comp", n))
            out.append(ind() + "0,")
        elif c == ".":
            close()
    while len(stack) > 1:
        close()
    return "\n".join(out) + "\n"
