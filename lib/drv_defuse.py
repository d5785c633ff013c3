"""Records the definitions and uses EduLint connects; see specs/DefUseTrace.tla."""
import ast
import json
import random
import sys

from loguru import logger

logger.remove()
from astroid import nodes  # noqa: E402

import livedefs  # noqa: E402
import pyaccess  # noqa: E402
from analysed import Unparsable, analysed  # noqa: E402
from pyskel import Skeleton, Unsupported, render  # noqa: E402

EMPTY = {"k": "seq", "ts": []}
OPS = {"r": ("READ",), "w": ("ASSIGN", "REASSIGN"), "m": ("MODIFY",), "d": ("DELETE",)}


class Events:
    def __init__(self, module):
        self.all, self.ids, self.at = [], {}, {}
        seen = set()
        for node in module.nodes_of_class(nodes.NodeNG):
            for x in (node, getattr(node, "args", None)):
                loc = getattr(x, "cfg_loc", None)
                if loc is None or id(loc) in seen:
                    continue
                seen.add(id(loc))
                for var, e in loc.var_events.all():
                    if var != e.var:
                        raise ValueError("filed under another variable")
                    self.all.append(e)
                    self.ids[id(e)] = len(self.all)
                    pos = getattr(e.node, "position", None) or e.node  # of definitions, without decorators
                    self.at.setdefault((e.type.name, var.name, pos.lineno, e.node.col_offset), len(self.all))

    def find(self, op, name, pos):
        for t in OPS[op]:
            if (t, name, *pos) in self.at:
                return self.at[t, name, *pos]
        return 0

    def text(self, i):
        e = self.all[i - 1]
        return f"{e.type.name} of {e.var.name} on line {e.node.lineno}, column {e.node.col_offset}"

    def odd(self):
        """connections that are not what they should be"""
        res = []
        for i, e in enumerate(self.all, 1):
            for what, back in (("definitions", "uses"), ("uses", "definitions")):
                for o in getattr(e, what):
                    if id(o) not in self.ids:
                        res.append(f"{self.text(i)} has {what} that are nowhere: {o.node!r}")
                    elif o.var != e.var:
                        res.append(f"{self.text(i)} is connected with {self.text(self.ids[id(o)])}, another variable")
                    elif not any(x is e for x in getattr(o, back)):
                        res.append(f"{self.text(i)} has {self.text(self.ids[id(o)])} among its {what}, not the other way around")
            if e.definitions and e.type.name not in ("READ", "MODIFY"):
                res.append(f"{self.text(i)} has definitions")
            if any(o.type.name == "READ" for o in e.definitions):
                res.append(f"{self.text(i)} is said to be defined by a READ")
        return res


def number(t, events, variables, missing, known):
    if t["k"] == "acc" and t["op"] == "x":
        return {"k": "acc", "op": "x", "v": 0, "e": 0}
    if t["k"] == "acc":
        e = events.find(t["op"], t["v"], t["pos"])
        known[t["op"], t["v"], *t["pos"]] = e
        if e == 0:
            missing.append([t["op"], t["v"], *t["pos"]])
        return {"k": "acc", "op": t["op"], "v": variables.setdefault(t["v"], len(variables) + 1), "e": e}
    if "t" in t:
        return {"k": t["k"], "t": number(t["t"], events, variables, missing, known)}
    return {"k": t["k"], "ts": [number(x, events, variables, missing, known) for x in t["ts"]]}


def run(job):
    text = job["text"] if "text" in job else livedefs.decorate(render(job["toks"]), random.Random(job["seed"]), not job["live"])
    res = {"skip": "", "text": text if "toks" in job else "", "rec": None, "missing": [], "odd": [], "events": [], "handlers": [], "raised": "", "live": None}
    try:
        tree = ast.parse(text)
        compile(text, "x", "exec")
        skel = Skeleton(tree)
        tables = pyaccess.tracked(text)
    except (SyntaxError, ValueError, RecursionError):
        res["skip"] = "syntax"
        return res
    except Unsupported as e:
        res["skip"] = str(e)
        return res
    try:
        module = analysed(text)
        if not module.cfg_loc.var_events.successful:
            raise Unparsable("not analysed")
        events = Events(module)
    except Unparsable as e:
        res["skip"] = str(e)
        return res
    except Exception as e:
        res["raised"] = repr(e)[:300]
        return res
    if not skel.units[0]["body"]:
        res["skip"] = "empty"
        return res
    trees = [EMPTY] * len(skel.atoms)
    units = []
    missing = []
    known = {}
    for u in skel.units:
        names = pyaccess.names_in_scope(tables, u) if u["kind"] != "class" else None
        if names is None:
            continue
        variables = {}
        reader = pyaccess.Reader(names)
        for a in atoms_of(skel, u):
            t = reader.atom(skel.asts[a - 1]) or EMPTY
            if pyaccess.ways(t) > 200:
                res["skip"] = "many ways to evaluate an expression"
                return res
            trees[a - 1] = number(t, events, variables, missing, known)
        units.append({"body": u["body"], "args": u["args"], "vars": len(variables)})
    res["missing"] = missing[:5]
    res["odd"] = events.odd()[:3]
    res["events"] = [[e.type.name, e.var.name, e.node.lineno, e.node.col_offset] for e in events.all]
    res["handlers"] = [[i, e.node.parent.tolineno] for i, e in enumerate(events.all, 1) if isinstance(e.node.parent, nodes.ExceptHandler) and e.node is e.node.parent.name]
    if not missing:
        defs = [[events.ids.get(id(d), 0) for d in e.definitions] for e in events.all]
        res["rec"] = {"nodes": skel.nodes, "raises": skel.raises, "units": units, "trees": trees, "defs": defs}
    if job.get("live") and not missing:
        res["live"] = livedefs.pairs(text, known, job["live"], job["seed"])
    return res


def atoms_of(skel, u):
    """the atoms of the unit (not those inside its functions and classes)"""
    res = [u["args"]] if u["args"] else []
    todo = list(u["body"])
    while todo:
        n = skel.nodes[todo.pop() - 1]
        for k, v in n.items():
            if k in ("a", "b"):
                res.append(v)
            elif k == "as":
                res += v
            elif k in ("body", "orelse", "final"):
                todo += v
            elif k in ("hs", "cases"):
                for x in v:
                    res += [x[y] for y in ("a", "g") if x.get(y)]
                    todo += x["body"]
    return res


def main():
    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as o:
        for line in f:
            o.write(json.dumps(run(json.loads(line))) + "\n")
            o.flush()


if __name__ == "__main__":
    main()
