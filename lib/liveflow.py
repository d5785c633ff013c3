"""Runs programs of pyskel.render in Python with every combination of outcomes; yields executed steps."""
import ast
import sys


class E(Exception):
    pass


class Never(Exception):
    pass


class Run:
    def __init__(self, script, at, roles, lines):
        self.script, self.pos, self.options = script, 0, []
        self.at, self.roles, self.lines = at, roles, lines
        self.trace = []

    def pick(self, n):
        self.options.append(n)
        k = self.script[self.pos] if self.pos < len(self.script) else 0
        self.pos += 1
        return k

    def log(self, key):
        self.trace.append(self.at[key])

    def A(self, k):
        role = self.roles[k]
        self.log(("A", k))
        if role == "test":
            c = self.pick(3)
            if c == 2:
                raise E
            return c == 1
        if role == "raise":
            return E()
        if self.pick(2):
            raise E
        return {"iter": lambda: Items(self, k), "with": Context, "subject": lambda: Subject(self)}.get(role, lambda: None)()

    def H(self, k):
        return [E, Never][self.pick(2)]

    def tracer(self, frame, event, arg):
        if event == "line" and frame.f_lineno in self.lines:
            self.trace.append(self.lines[frame.f_lineno])
        return self.tracer


class Context:
    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False


class Items:
    def __init__(self, run, k):
        self.run, self.k = run, k

    def __iter__(self):
        return self

    def __next__(self):
        self.run.log(("T", self.k))
        c = self.run.pick(3)
        if c == 0:
            raise StopIteration
        if c == 2:
            raise E
        return 1


class Subject:
    def __init__(self, run):
        self.run = run

    def __eq__(self, other):
        c = self.run.pick(3)
        if c == 1:
            self.run.log(("M", other))
        if c == 2:
            raise E
        return c == 1


class Patterns:
    def __getattr__(self, name):
        return int(name[1:])


def steps(text, skel, max_depth, max_runs):
    """(steps, all explored?) of the function f of the program; skel is its Skeleton"""
    at, roles, lines = {}, {}, {}
    for i, (key, node) in enumerate(zip(skel.atoms, skel.asts), 1):
        if isinstance(node, (ast.FunctionDef, ast.arguments)):
            continue
        if isinstance(node, (ast.Break, ast.Continue, ast.Pass)):
            lines[node.lineno] = i
            continue
        if isinstance(node, ast.MatchValue):
            at["M", int(node.value.attr[1:])] = i
            continue
        if isinstance(node, ast.MatchAs):
            continue
        if isinstance(node, ast.Subscript):
            at["T", node.slice.value] = i
            continue
        call = [c for c in ast.walk(node) if isinstance(c, ast.Call)][0]
        at["A", call.args[0].value] = i
        roles[call.args[0].value] = "raise" if isinstance(node, ast.Raise) else "stmt"
    for n in skel.nodes:
        def num(a):
            return skel.asts[a - 1].args[0].value
        if n["k"] in ("if", "while"):
            roles[num(n["a"])] = "test"
        elif n["k"] == "for":
            roles[num(n["a"])] = "iter"
        elif n["k"] == "with":
            roles[num(n["as"][0])] = "with"
        elif n["k"] == "match":
            roles[num(n["a"])] = "subject"
            for c in n["cases"]:
                if c["g"]:
                    roles[num(c["g"])] = "test"
    code = compile(text, "live", "exec")
    found, todo, runs, whole = set(), [[]], 0, True
    while todo:
        script = todo.pop()
        runs += 1
        if runs > max_runs:
            whole = False
            break
        r = Run(script, at, roles, lines)
        ns = {"A": r.A, "H": r.H, "M": Patterns(), "v": {}}
        exec(code, ns)
        ended = False
        if lines:
            sys.settrace(r.tracer)
        try:
            ns["f"]()
            ended = True
        except E:
            pass
        finally:
            sys.settrace(None)
        tr = r.trace + ([0] if ended else [])
        found |= set(zip(tr, tr[1:]))
        for i in range(len(script), min(len(r.options), max_depth)):
            for c in range(1, r.options[i]):
                todo.append(script + [0] * (i - len(script)) + [c])
        if len(r.options) > max_depth:
            whole = False
    return sorted(found), whole
