"""Records what EduLint says about the loops of functions, for specs/LoopTrace.tla."""
import ast
import copy
import json
import os
import random
import re
import sys
import tempfile

import drv_suggest as d
import pyexpr

CODES = "R6301 R6302 R6303 R6304 R6305 R6306 R6307 R6308 R6309 R6310 R6606".split()
FUEL = 24


class Stop(Exception):
    pass


def ticking(stmts):
    """the statements, with _tick() called in every iteration of a loop"""
    tick = ast.parse("_tick()").body[0]
    stmts = copy.deepcopy(stmts)
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.For, ast.While)):
                n.body.insert(0, copy.deepcopy(tick))
    return stmts


def python_run(stmts, env, fuel):
    """how Python executes the statements"""
    fn = ast.parse("def _f(" + ", ".join(env) + "):\n    pass").body[0]
    fn.body = ticking(stmts) + ast.parse("return _Next(locals())").body
    mod = ast.fix_missing_locations(ast.Module([fn], []))
    out, left = [], [fuel]

    class _Next:
        def __init__(self, env):
            self.env = dict(env)

    def _tick():
        if not left[0]:
            raise Stop
        left[0] -= 1

    glob = {"_Next": _Next, "print": lambda v: out.append(v if isinstance(v, str) else pyexpr.num(v)), "_tick": _tick}
    end = lambda o, v=None, e=(): {"out": o, "tr": out, "val": v or pyexpr.num(None), "env": list(e)}  # noqa: E731
    try:
        exec(compile(mod, "x", "exec"), glob)
        v = glob["_f"](**{k: copy.deepcopy(v) for k, v in env.items()})
    except Stop:
        return end("fuel")
    except Exception:
        return end("raise")
    if isinstance(v, _Next):
        return end("next", e=[{"n": k, "v": pyexpr.num(x)} for k, x in v.env.items()])
    return end("return", pyexpr.num(v))


def loop_of(src, n):
    """the nearest loop n is in the body of"""
    while id(n) in src.up:
        p, f, _ = src.up[id(n)]
        if isinstance(p, (ast.For, ast.While)) and f == "body":
            return p
        n = p
    raise d.Unread("no loop")


def statement(src, n):
    while not isinstance(n, ast.stmt):
        n = src.up[id(n)][0]
    return n


def function(src, n):
    while not isinstance(n, ast.FunctionDef):
        n = src.up[id(n)][0]
    return n


def outer(src, n, name):
    """the for loop around n with the control variable"""
    while True:
        n = loop_of(src, n)
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and n.target.id == name:
            return n


def read(src, code, node, said):
    if code == "R6304" and type(node).__name__ not in ("Assign", "AugAssign", "AnnAssign"):
        raise d.Unread("change")
    n = src.find(node.parent if code == "R6306" else node)
    r = {"code": code, "said": said, "at": statement(src, n).lineno, "loop": 0, "name": "", "which": ""}
    if code == "R6301":
        first = n.body[0]
        if len(first.body) != 1:
            raise d.Unread("more than break")
    if code == "R6302":
        r["which"] = re.search(r"the (first|last) iteration", said)[1]
        r["name"] = n.target.id
    if code == "R6303":
        name = re.search(r"structure (\w+) is", said)[1]
        loop = loop_of(src, statement(src, n))
        while not (isinstance(loop, ast.For) and isinstance(loop.iter, ast.Name) and loop.iter.id == name):
            loop = loop_of(src, loop)
        if any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for y in loop.body for x in ast.walk(y)):
            raise d.Unread("another list under the name")
        r["loop"] = loop.lineno
    if code in ("R6304", "R6306"):
        r["name"] = re.search(r"ontrol variable (\w+)", said)[1]
        r["loop"] = outer(src, n, r["name"]).lineno
    if code == "R6305":
        names = {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}
        changed = {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        both = names & changed
        if len(both) != 1:
            raise d.Broken(f"changed: {sorted(both)}")
        r["name"] = both.pop()
    if code in ("R6307", "R6308"):
        r["name"] = n.target.id
    if code == "R6606":
        r["which"] = "none" if "no iterations" in said else "one"
    return r, function(src, n)


def python_says(stmts, block, doms, rnd, runs=2):
    res = []
    for _ in range(runs):
        env = {n: rnd.choice(v) for n, v in doms.items()}
        res.append({
            "k": "block", "block": block, "env": [{"n": n, "v": pyexpr.num(v)} for n, v in env.items()], "fuel": FUEL,
            "want": python_run(stmts, env, FUEL),
        })  # fmt: skip
    return res


LISTS = [[1], [0, 1], [], [2, -1, 1], [3, 3], [0, 2, 0, 1]]


def domains(vars, tree, cap):
    ints = {n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and type(n.value) is int and n.value < 8}
    doms = {}
    for v, kind in vars:
        if kind == "list":
            doms[v] = LISTS[:]
        elif kind == "bool":
            doms[v] = [True, False]
        else:
            doms[v] = sorted({-2, -1, 0, 1, 2, 3} | {c + k for c in ints for k in (-1, 0, 1)})
    rnd = random.Random(1)
    while True:
        size = 1
        for dom in doms.values():
            size *= len(dom)
        big = max(doms, key=lambda k: len(doms[k])) if doms else None
        if size <= cap or len(doms[big]) <= 2:
            return doms
        doms[big].remove(rnd.choice(doms[big]))


def run(lint, fns, cap):
    lines, spans = [], []
    for text, vars in fns:
        spans.append((len(lines) + 1, len(lines) + text.count("\n") + 1))
        lines += text.rstrip("\n").split("\n") + ["", ""]
    module = "\n".join(lines) + "\n"
    recs, unread, broken = [], [], []
    msgs = d.said(lint, module)
    src = d.Source(module)
    rnd = random.Random(len(module))
    for code, node, msg in msgs:
        k = next((i for i, (a, b) in enumerate(spans) if a <= node.lineno <= b), None)
        if k is None:
            continue
        what = {"fn": k, "code": code, "said": msg, "line": node.lineno - spans[k][0] + 1}
        try:
            r, fn = read(src, code, node, msg)
        except d.Unread as e:
            unread.append({**what, "why": str(e)})
            continue
        except d.Broken as e:
            broken.append({**what, "why": str(e)})
            continue
        vars = fns[k][1]
        stmts = fn.body[len(vars) :]
        doms = domains(vars, fn, cap)
        r["block"] = pyexpr.block(stmts)
        r["vars"] = [{"n": n, "dom": [pyexpr.num(v) for v in dom]} for n, dom in doms.items()]
        r["py"] = python_says(stmts, r["block"], doms, rnd)
        r["line"] = what["line"]
        recs.append([k, r])
    return {"recs": recs, "unread": unread, "broken": broken}


def main():
    pyexpr.LISTS = True
    d.CODES = CODES
    d.DIR = tempfile.mkdtemp(dir=os.getcwd())
    lint = d.linter(["local_defects", "unsuited_loop"])
    d.hook(lint)
    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as o:
        for line in f:
            job = json.loads(line)
            o.write(json.dumps(run(lint, job["fns"], job.get("cap", 100))) + "\n")
            o.flush()


if __name__ == "__main__":
    main()
