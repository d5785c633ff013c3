"""Gives the programs of pyskel.render variables; runs them to see which write each read sees."""
import dis
import random
import re
import sys


def decorate(text, r, mutate=False):
    """the text with variables x and y assigned and read (and their objects modified) at some places"""
    res = []
    for line in text.split("\n"):
        ind = line[: len(line) - len(line.lstrip())]
        s = line.strip()
        v, w = r.sample(["x", "y"], 2)
        reads = r.choice(["", "", f", {v}={v}", f", {v}={v}, {w}={w}"])
        m = re.fullmatch(r"A\((\d+)\)", s)
        if s == "def f():":
            line = r.choice(["def f(x, y):", "def f(x, y=0):", "def f(y, *, x):"])
        elif m:
            k = m[1]
            line = ind + r.choice([
                f"A({k}{reads})", f"A({k}, {v}={v})", f"{v} = A({k}{reads})", f"{v} = A({k})", f"{v} = {w} = A({k})", f"{v}, {w} = A({k}{reads})",
                f"{v} += A({k})", f"({v} := A({k}{reads}))", f"A({k}, {v}=({v} := A({k})))", f"{v}: int = A({k})", f"{v} = A({k}, {v}={v})",
                f"O({k}) and ({v} := A({k}))", f"{v} = A({k}) if O({k}) else A({k}, {w}={w})", f"({v} := A({k})) if O({k}) else ({w} := A({k}))",
                f"[{v} for {v} in A({k}{reads})]", f"[({v} := _) for _ in A({k})]", f"del {v}" if r.random() < 0.3 else f"A({k}{reads})", f"L[A({k}{reads})], {v} = A({k})",
                f"O({k}) < O({k}) < ({v} := A({k}))",
            ])  # fmt: skip
            if mutate and r.random() < 0.4:
                line = ind + r.choice([
                    f"{v}.append(A({k}{reads}))", f"{v}[A({k})] = A({k}{reads})", f"{v}[{w}] = {w}", f"{v}.a = {v}", f"{v}[0] += A({k}{reads})", f"del {v}[A({k})]", f"del {v}.a",
                    f"{v}.a[{w}].b.insert({w}, {v})", f"O({k}) and {v}.pop()", f"A({k}, {v}.extend({w}))", f"{v}[0], ({w}, {v}.b) = A({k})", f"{v}.pop().sort({v}.remove(0))",
                    f"{w}, {v}[{w}] = A({k})", f"[{v}.append(_) for _ in A({k}, {v}={v})]", f"{v}.a += {v}", f"{v}[({w} := A({k}))] = {w}", f"A({k}, {v}.pop)", f"{v}.a: int = {w}",
                    f"{v} = {v}[0] = A({k})", f"with A({k}) as {v}[0]: pass", f"for {v}[0], {w} in A({k}): A({k}{reads})", f"{v}.index({w}, {v}.pop({w}))", f"{v}[0].clear()", f"{v}.write({w}).add({v})",
                    f"{v}[0] += ({v} := A({k}))", f"({v} := {v}.append({v}))", f"{v} += ({v} := A({k}))", f"{v} = {w}, {v} = A({k}{reads})", f"import {v}", f"from {w} import a as {v}", f"def {v}(a=(A({k}{reads}))): pass",
                    f"class {v}(A({k}{reads})): pass", f"lambda a={v}: 0", f"{v}: {w} = {v}", f"assert {v}, ({w} := A({k}))", f"{{{v}: {v} for {v} in {w} if ({w} := {v})}}", f"f'{{{v}}}{{({v} := A({k}))}}'",
                    f"{v}[{w}:({w} := A({k}))]", f"print(*{v}, **{w})",
                ])  # fmt: skip
        else:
            line = re.sub(r"A\((\d+)\)", lambda m: f"A({m[1]}{reads})", line)
            line = re.sub(r"^( *)(if|while) A\((.*)\):", lambda m: m[0] if r.random() < 0.7 else f"{m[1]}{m[2]} {r.choice([f'({v} := A({m[3]}))', f'(O(1) or ({v} := A({m[3]})))', f'(O(1) and A({m[3]}))'])}:", line)
            if r.random() < 0.7:
                line = re.sub(r"for v\[(\d+)\] in", lambda m: f"for {r.choice([v, v, f'{v}, {w}', f'L[0], {v}'])} in", line)
            line = line.replace("for v[", "for L[")
            if s.startswith("with") and r.random() < 0.6:
                line = line[:-1] + f" as {r.choice([v, f'({v}, {w})'])}:"
            if s.startswith("except H") and r.random() < 0.4:
                line = line[:-1] + f" as {v}:"
            if s.startswith("case M") and r.random() < 0.5:
                line = re.sub(r"(M\.m\d+)", lambda m: f"{m[1]} as {v}", line)
            if s == "case _:" and r.random() < 0.4:
                line = line.replace("_", v)
        res.append(line)
    return "\n".join(res)


class E(Exception):
    pass


class Never(Exception):
    pass


class Stop(BaseException):
    """the run is long enough"""


class Value(E):
    """anything: a condition, iterable, pair, context, subject, index, exception; all at random"""

    def __init__(self, rnd):
        self.rnd = rnd

    def __bool__(self):
        if self.rnd.random() < 0.1:
            raise E
        return self.rnd.random() < 0.5

    def __iter__(self):
        for _ in range(self.rnd.choice([0, 1, 2, 2, 2])):
            yield Value(self.rnd)
        if self.rnd.random() < 0.1:
            raise E

    def __enter__(self):
        return Value(self.rnd)

    def __exit__(self, *_):
        return False

    def __hash__(self):
        return 0

    def __lt__(self, other):
        return Value(self.rnd)

    __gt__ = __eq__ = __lt__

    def __iadd__(self, other):
        return Value(self.rnd)


class Patterns:
    def __getattr__(self, name):
        return name


def pairs(text, known, tries, seed):
    """the pairs of a use and a definition that executions of f in Python make; known: {(op, variable, line, column): event}"""
    rnd = random.Random(seed)
    code = compile(text, "live", "exec")
    found, budget = set(), 0

    def value(*_, **__):
        if rnd.random() < 0.1:
            raise E
        return Value(rnd)

    for _ in range(tries):
        ns = {"A": value, "O": value, "H": lambda k: rnd.choice([E, Never]), "M": Patterns(), "L": {}}
        exec(code, ns)
        f = ns["f"]
        at = {}
        for ins in dis.get_instructions(f.__code__):
            p = ins.positions
            ops = {"LOAD_FAST": "r", "LOAD_FAST_CHECK": "r", "STORE_FAST": "w", "DELETE_FAST": "d"}
            if ins.opname in ops and (ops[ins.opname], ins.argval, p.lineno, p.col_offset) in known:
                at[ins.offset] = ops[ins.opname], ins.argval, known[ops[ins.opname], ins.argval, p.lineno, p.col_offset]
            elif ins.opname in ("DELETE_FAST", "STORE_FAST") and ("w", ins.argval, p.lineno, p.col_offset) in known:
                at[ins.offset] = "d", ins.argval, 0  # the end of a handler
        last = {v: known["w", v, l, c] for op, v, l, c in known if op == "w" and l == f.__code__.co_firstlineno}
        left = 3000

        def tracer(frame, event, arg):
            nonlocal left
            if frame.f_code is not f.__code__:
                return None
            frame.f_trace_opcodes = True
            if event == "opcode" and frame.f_lasti in at:
                op, v, e = at[frame.f_lasti]
                if op == "r" and v in frame.f_locals and last.get(v):
                    found.add((e, last[v]))
                if op == "w":
                    last[v] = e
                if op == "d":
                    last[v] = 0
            left -= 1
            if left < 0:
                raise Stop
            return tracer

        sys.settrace(tracer)
        try:
            f(0, x=0) if "*" in text.split("\n")[0] else f(0, 0)
        except (E, Stop, ValueError, TypeError, UnboundLocalError):
            pass
        finally:
            sys.settrace(None)
    return sorted(found)
