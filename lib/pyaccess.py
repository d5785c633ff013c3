"""What the parts of a program do to the variables of a function or module, in the order Python does it.

Trees for specs/DefUse.tla: acc (op r, w, m or d), seq, opt (may be skipped), alt, rep (any number of times)."""
import ast
import re
import symtable

# methods named like those that modify the object
MUTATING = re.compile(r"append|clear|extend|insert|pop|remove|reverse|sort|add|.*update|write")
FAIL = {"k": "acc", "op": "x", "v": "", "pos": [0, 0]}
COMPREHENSIONS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def tracked(text):
    """for each scope (line, name) of a function, and "module": the variables only its own code writes"""
    res = {}

    def shared(t, kind):
        """names declared so anywhere inside t"""
        got = set()
        for c in t.get_children():
            got |= {s.get_name() for s in c.get_symbols() if (s.is_declared_global() if kind == "global" else s.is_nonlocal())} | shared(c, kind)
        return got

    def walk(t):
        if t.get_type() == "function":
            own = {s.get_name() for s in t.get_symbols() if s.is_local()} - shared(t, "nonlocal")
            res.setdefault((t.get_lineno(), t.get_name()), own)
        for c in t.get_children():
            walk(c)

    top = symtable.symtable(text, "x", "exec")
    res["module"] = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()} - shared(top, "global")
    walk(top)
    return res


def names_in_scope(tables, unit):
    node = unit["node"]
    if unit["kind"] == "module":
        return tables["module"]
    for line in [node.lineno] + [d.lineno for d in node.decorator_list]:
        if (line, node.name) in tables:
            return tables[line, node.name]
    return None


class Reader:
    def __init__(self, names):
        self.names = names
        self.hidden = []

    def acc(self, op, name, node, pos=None):
        if name not in self.names or any(name in h for h in self.hidden):
            return None
        return {"k": "acc", "op": op, "v": name, "pos": pos or [node.lineno, node.col_offset]}

    def seq(self, ts):
        ts = [t for t in ts if t is not None]
        return ts[0] if len(ts) == 1 else {"k": "seq", "ts": ts} if ts else None

    def fails(self, t):
        """t and then something that may fail"""
        return t and (self.seq([t, FAIL]) if writes(t) else t)

    def opt(self, t):
        return t and {"k": "opt", "t": t}

    def many(self, es):
        return self.seq([self.expr(e) for e in es])

    def expr(self, e):
        if e is None:
            return None
        if isinstance(e, ast.Name):
            return self.acc("r", e.id, e)
        if isinstance(e, ast.NamedExpr):
            held, self.hidden = self.hidden, []
            t = self.acc("w", e.target.id, e.target)
            self.hidden = held
            return self.seq([self.expr(e.value), t])
        if isinstance(e, ast.BoolOp):
            res = None
            for v in reversed(e.values[1:]):
                res = self.opt(self.seq([self.expr(v) if v is e.values[-1] else self.fails(self.expr(v)), res]))
            return self.seq([self.fails(self.expr(e.values[0])), res])
        if isinstance(e, ast.Compare):
            res = None
            for v in reversed(e.comparators[1:]):
                res = self.opt(self.fails(self.seq([self.expr(v), res])))
            return self.seq([self.fails(self.seq([self.expr(e.left), self.expr(e.comparators[0])])), res])
        if isinstance(e, ast.IfExp):
            a, b = self.expr(e.body), self.expr(e.orelse)
            empty = {"k": "seq", "ts": []}
            return self.seq([self.fails(self.expr(e.test)), {"k": "alt", "ts": [a or empty, b or empty]} if a or b else None])
        if isinstance(e, ast.Lambda):
            return self.many(e.args.defaults + e.args.kw_defaults)
        if isinstance(e, COMPREHENSIONS):
            first = self.fails(self.expr(e.generators[0].iter))
            if isinstance(e, ast.GeneratorExp):
                return first
            own = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            self.hidden.append(own)
            inner = []
            for i, g in enumerate(e.generators):
                inner += ([g.iter] if i else []) + [g.target] + g.ifs
            inner += [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
            trees = [self.expr(x) for x in inner]
            self.hidden.pop()
            res = None
            for t in reversed(trees):
                res = self.seq([t, res])
                res = res and {"k": "rep", "t": self.fails(res)}
            return self.seq([first, res])
        if isinstance(e, ast.Call):
            t = self.fails(self.many([e.func, *e.args, *[k.value for k in e.keywords]]))
            for x in (e.func, *e.args):
                if isinstance(x, ast.Attribute) and MUTATING.match(x.attr) and stripped(x):
                    t = self.seq([t, self.acc("m", stripped(x).id, stripped(x))])
            return t
        if isinstance(e, ast.Dict):
            return self.many([x for kv in zip(e.keys, e.values) for x in kv])
        if isinstance(e, ast.Subscript):
            return self.fails(self.many([e.value, e.slice]))
        t = self.many([c for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)])
        return t if isinstance(e, (ast.Tuple, ast.List, ast.Set)) else self.fails(t)

    def target(self, t):
        if isinstance(t, ast.Name):
            return self.acc("d" if isinstance(t.ctx, ast.Del) else "w", t.id, t)
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.seq([self.target(x) for x in t.elts])
        if isinstance(t, ast.Starred):
            return self.target(t.value)
        base = stripped(t)
        return self.seq([self.expr(t), base and self.acc("m", base.id, base)])

    def arguments(self, a):
        every = a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]
        return self.seq([self.acc("w", x.arg, x) for x in every])

    def outside(self, a):
        every = a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]
        return [*a.defaults, *a.kw_defaults, *[x.annotation for x in every]]

    def pattern(self, p):
        if isinstance(p, ast.MatchValue):
            return self.expr(p.value)
        if isinstance(p, ast.MatchMapping):
            rest = self.acc("w", p.rest, p) if p.rest else None
            return self.seq([self.many(p.keys), *[self.pattern(x) for x in p.patterns], rest])
        if isinstance(p, ast.MatchClass):
            return self.seq([self.expr(p.cls), *[self.pattern(x) for x in p.patterns + p.kwd_patterns]])
        if isinstance(p, ast.MatchSequence):
            return self.seq([self.pattern(x) for x in p.patterns])
        if isinstance(p, ast.MatchStar):
            return self.acc("w", p.name, p) if p.name else None
        if isinstance(p, ast.MatchAs):
            return self.seq([p.pattern and self.pattern(p.pattern), self.acc("w", p.name, p) if p.name else None])
        if isinstance(p, ast.MatchOr):
            ts = [self.pattern(x) or {"k": "seq", "ts": []} for x in p.patterns]
            return {"k": "alt", "ts": ts}
        return None

    def atom(self, n):
        """the accesses of a part of lib/pyskel.py"""
        if isinstance(n, ast.arguments):
            return self.arguments(n)
        if isinstance(n, ast.ExceptHandler):
            return self.acc("w", n.name, n)
        if isinstance(n, ast.pattern):
            return self.pattern(n)
        if isinstance(n, ast.Assign):
            return self.seq([self.expr(n.value)] + [x for t in n.targets for x in (FAIL if isinstance(t, (ast.Tuple, ast.List)) else None, self.target(t))])
        if isinstance(n, ast.AugAssign):
            if isinstance(n.target, ast.Name):
                return self.seq([self.acc("r", n.target.id, n.target), self.expr(n.value), self.acc("w", n.target.id, n.target)])
            base = stripped(n.target)
            return self.seq([self.expr(n.target), self.expr(n.value), base and self.acc("m", base.id, base)])
        if isinstance(n, ast.AnnAssign):
            if n.value is None and isinstance(n.target, ast.Name):
                return None
            return self.seq([self.expr(n.value), self.target(n.target)])
        if isinstance(n, ast.Delete):
            return self.seq([self.target(t) for t in n.targets])
        if isinstance(n, ast.Assert):
            return self.seq([self.expr(n.test), self.opt(self.expr(n.msg))])
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            every = [a.asname or (a.name.split(".")[0] if isinstance(n, ast.Import) else a.name) for a in n.names]
            return self.seq([self.acc("w", x, n) for x in every])
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            evaluated = [*n.decorator_list, *self.outside(n.args), n.returns]
            return self.seq([self.many(evaluated), self.acc("w", n.name, n)])
        if isinstance(n, ast.ClassDef):
            return self.seq([self.many([*n.decorator_list, *n.bases, *[k.value for k in n.keywords]]), self.acc("w", n.name, n)])
        if isinstance(n, ast.expr) and isinstance(getattr(n, "ctx", None), ast.Store):
            return self.target(n)
        if isinstance(n, ast.expr):
            return self.fails(self.expr(n))  # a condition, context or the like
        return self.many([c for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr)])


def writes(t):
    return t["op"] == "w" if t["k"] == "acc" else any(map(writes, t["ts"])) if "ts" in t else writes(t["t"])


def stripped(e):
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        e = e.value
    return e if isinstance(e, ast.Name) else None


def ways(t):
    """an upper bound of the number of ways to evaluate the tree"""
    if t is None or t["k"] == "acc":
        return 1
    if t["k"] == "seq":
        n = 1
        for x in t["ts"]:
            n *= ways(x)
        return n
    if t["k"] == "alt":
        return sum(map(ways, t["ts"]))
    n = ways(t["t"])
    return 1 + n + (n * n if t["k"] == "rep" else 0)
