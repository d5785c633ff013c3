"""Records to which scopes EduLint's analyses attribute names; see specs/BindTrace.tla."""
import json
import symtable
import sys
from collections import defaultdict

from loguru import logger

logger.remove()
from astroid import nodes  # noqa: E402

from analysed import Unparsable, analysed  # noqa: E402
from pyscopes import Scopes, Unsupported, render  # noqa: E402

ACCESS = {"ASSIGN": "bind", "REASSIGN": "bind", "DELETE": "del", "READ": "read", "MODIFY": "read"}
KIND = {
    "Module": "module", "FunctionDef": "function", "AsyncFunctionDef": "function", "ClassDef": "class", "Lambda": "lambda",
    "ListComp": "comp", "SetComp": "comp", "DictComp": "comp", "GeneratorExp": "comp",
}  # fmt: skip


def events(module):
    seen = set()
    for n in module.nodes_of_class(nodes.NodeNG):
        for x in (n, getattr(n, "args", None)):
            loc = getattr(x, "cfg_loc", None)
            if loc is None or id(loc) in seen:
                continue
            seen.add(id(loc))
            for var, event in loc.var_events.all():
                yield var, event


def line_of(node):
    """the line of def and class, not of their decorators"""
    position = getattr(node, "position", None)
    return position.lineno if position is not None else node.lineno


def groups(sc, module):
    scope_at = {("Module", 0, 0): 1}
    for i, n in enumerate(sc.nodes[1:], 2):
        scope_at[type(n).__name__, n.lineno, n.col_offset] = i
    by_key = defaultdict(set)
    for var, e in events(module):
        sn = var.scope
        at = (type(sn).__name__, 0, 0) if isinstance(sn, nodes.Module) else (type(sn).__name__, line_of(sn), sn.col_offset)
        s = scope_at.get(at, -2)
        acc = ACCESS[e.type.name]
        by_key[var.name, line_of(e.node), acc].add(s)
    groups = defaultdict(list)
    for k, (o, (line, _)) in enumerate(zip(sc.os, sc.where), 1):
        if o["access"] != "declare":
            groups[o["name"], line, o["access"]].append(k)
    keys = sorted(groups)
    extra = sorted(set(by_key) - set(groups))
    return [{"occs": groups[k], "seen": sorted(by_key.get(k, ())), "python": [-1], "key": list(k)} for k in keys], extra


def python_says(text, sc, gs):
    """the scopes according to the compiler, for programs with one item a line"""
    tables = {}

    def walk(t, parent):
        kind = {"module": "module", "class": "class"}.get(t.get_type(), "function")
        if t.get_name() == "lambda":
            kind = "lambda"
        elif t.get_name() in ("listcomp", "setcomp", "dictcomp", "genexpr"):
            kind = "comp"
        tables[kind, t.get_lineno()] = (t, parent)
        for c in t.get_children():
            walk(c, (t, parent))

    top = symtable.symtable(text, "x", "exec")
    walk(top, None)
    at = {}
    for i, (s, n) in enumerate(zip(sc.ss, sc.nodes), 1):
        key = (s["kind"], getattr(n, "lineno", 0))
        at[tables[key][0].get_id()] = i

    def has(t, name):
        try:
            return t.lookup(name)
        except KeyError:
            return None

    def owner(chain, name):
        t, up = chain
        y = has(t, name)
        if y is None:
            return None
        if t is top or t.get_type() == "module":
            return 1
        if y.is_local():
            return at[t.get_id()]
        if y.is_free():
            while True:
                t, up = up
                if t.get_type() != "class" and has(t, name) is not None and has(t, name).is_local():
                    return at[t.get_id()]
        return 1

    def chain_of(s):
        n = sc.nodes[s - 1]
        return tables[sc.ss[s - 1]["kind"], getattr(n, "lineno", 0)]

    outside = {"function": ("default", "decorator", "annotation"), "lambda": ("default",), "comp": ("firstiter",)}
    for g in gs:
        res = set()
        for k in g["occs"]:
            o = sc.os[k - 1]
            s, part = o["scope"], o["part"]
            while part in outside.get(sc.ss[s - 1]["kind"], ()):
                s, part = sc.ss[s - 1]["parent"], sc.ss[s - 1]["part"]
            r = owner(chain_of(s), o["name"])
            if r == 1:
                ys = [has(t, o["name"]) for t, _ in tables.values()]
                ys = [y for t, y in zip(tables.values(), ys) if y is not None and (t[0] is top or y.is_declared_global())]
                if not any(y.is_assigned() or y.is_imported() for y in ys):
                    r = 0
            res.add(r)
        g["python"] = sorted(res)


def run(job):
    text = job["text"] if "text" in job else render(job["toks"], ["()", "[]", "{}"][sum(map(ord, "".join(job["toks"]))) % 3])
    res = {"skip": "", "text": text if "toks" in job else "", "rec": None, "extra": [], "raised": ""}
    try:
        compile(text, "x", "exec")
        sc = Scopes(text)
    except (SyntaxError, ValueError, RecursionError):
        res["skip"] = "syntax"
        return res
    except Unsupported as e:
        res["skip"] = str(e)
        return res
    try:
        module = analysed(text)
    except Unparsable as e:
        res["skip"] = str(e)
        return res
    except Exception as e:
        res["raised"] = repr(e)[:300]
        return res
    gs, extra = groups(sc, module)
    if "toks" in job:
        # the symbol tables of Python 3.12 leave out comprehensions other than generators
        plain = render(job["toks"])
        python_says(plain, Scopes(plain), gs)
    res["rec"] = {"ss": sc.ss, "os": sc.os, "ds": sc.ds, "groups": gs}
    res["extra"] = [list(x) for x in extra]
    return res


def main():
    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as o:
        for line in f:
            o.write(json.dumps(run(json.loads(line))) + "\n")


if __name__ == "__main__":
    main()
