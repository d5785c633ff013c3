"""Records the control flow graphs EduLint builds; see specs/FlowTrace.tla."""
import ast
import json
import random
import sys

from loguru import logger

logger.remove()
from astroid import nodes  # noqa: E402

from analysed import Unparsable, analysed  # noqa: E402
from edulint.linting.analyses.cfg import utils  # noqa: E402
import liveflow  # noqa: E402
from pyskel import Skeleton, Unsupported, render  # noqa: E402


def key(node):
    """how lib/pyskel.py names the part of the program"""
    if isinstance(node, nodes.Arguments):
        p = node.parent.position
        return ("args", p.lineno, p.col_offset)
    if isinstance(node, (nodes.FunctionDef, nodes.ClassDef)):
        return ("def", node.position.lineno, node.position.col_offset)
    if isinstance(node.parent, nodes.ExceptHandler) and node is node.parent.name:
        return ("name", node.parent.lineno, node.parent.col_offset)
    return (node.lineno, node.col_offset, node.end_lineno, node.end_col_offset)


class Graph:
    def __init__(self, skel, module, rnd, stops):
        self.ids = {k: i for i, k in enumerate(skel.atoms, 1)}
        self.unknown = []
        n = len(skel.atoms)
        self.locs = [None] * (n + 1)
        seen = set()
        blocks = {}
        for node in module.nodes_of_class(nodes.NodeNG):
            for x in (node, getattr(node, "args", None)):
                loc = getattr(x, "cfg_loc", None)
                if loc is not None and id(loc.block) not in seen:
                    seen.add(id(loc.block))
                    blocks[id(loc.block)] = loc.block
        self.blocks = list(blocks.values())
        for b in self.blocks:
            for loc in b.locs:
                i = self.id(loc)
                if i > 0:
                    self.locs[i] = loc
        self.succ = [[] for _ in range(n)]
        self.dead = []
        for b in self.blocks:
            for loc, nxt in zip(b.locs, b.locs[1:]):
                self.succ[self.id(loc) - 1].append(self.id(nxt))
            if b.locs:
                self.succ[self.id(b.locs[-1]) - 1] += self.leads(b)
            if b in b.cfg.unreachable_blocks or not b.reachable:
                self.dead += [self.id(x) for x in b.locs]
        self.first = []
        for u in skel.units:
            if u["kind"] == "function":
                i = u["args"]
            else:
                i = u["body"] and self.first_atom(skel, u["body"][0])
            loc = self.locs[i] if i else None
            if loc is None:
                self.first.append([])
            elif u["kind"] == "class":
                # where a class starts is not a node of its graph
                self.first.append([i])
            else:
                start = loc.block.cfg.start
                self.first.append([self.id(start.locs[0])] if start.locs else self.leads(start))
        self.after = [self.ids_of(utils.successors_from_loc(x)) if x else [] for x in self.locs[1:]]
        self.before = [self.ids_of(utils.predecessors_from_loc(x)) if x else [] for x in self.locs[1:]]
        self.stops = []
        known = [i for i in range(1, n + 1) if self.locs[i]]
        for _ in range(stops if known else 0):
            a, s = rnd.choice(known), rnd.choice(known)
            seen = self.ids_of(utils.successors_from_loc(self.locs[a], stop_on_loc=lambda x: x.node is self.locs[s].node))
            self.stops.append({"a": a, "stop": s, "seen": seen})

    def first_atom(self, skel, n):
        s = skel.nodes[n - 1]
        if s["k"] == "try":
            return self.first_atom(skel, s["body"][0])
        return s["as"][0] if s["k"] == "with" else s["a"]

    def id(self, loc):
        k = key(loc.node)
        if k not in self.ids:
            self.unknown.append(repr(loc.node)[:200])
            return -3
        return self.ids[k]

    def ids_of(self, locs):
        return sorted({self.id(x) for x in locs})

    def leads(self, b):
        """the atoms that the block leads to, 0 being the end"""
        res, todo, seen = [], [b], set()
        while todo:
            for e in todo.pop().successors:
                t = e.target
                if id(t) in seen:
                    continue
                seen.add(id(t))
                if t is t.cfg.end:
                    res.append(0)
                elif t.locs:
                    res.append(self.id(t.locs[0]))
                else:
                    todo.append(t)
        return res


def run(job):
    text = job["text"] if "text" in job else render(job["toks"])
    res = {"skip": "", "text": text if "toks" in job else "", "rec": None, "unknown": [], "atoms": [], "raised": "", "live": None}
    try:
        tree = ast.parse(text)
        compile(text, "x", "exec")
        skel = Skeleton(tree)
    except (SyntaxError, ValueError, RecursionError):
        res["skip"] = "syntax"
        return res
    except Unsupported as e:
        res["skip"] = str(e)
        return res
    try:
        module = analysed(text)
    except Unparsable as e:
        res["skip"] = str(e)
        return res
    except Exception as e:
        res["raised"] = repr(e)[:300]
        return res
    if not skel.units[0]["body"]:
        res["skip"] = "empty"
        return res
    g = Graph(skel, module, random.Random(job.get("seed", 1)), job.get("stops", 2))
    res["unknown"] = g.unknown[:3]
    res["atoms"] = [str(k) for k in skel.atoms]
    res["rec"] = {
        "nodes": skel.nodes, "raises": skel.raises, "succ": g.succ, "first": g.first, "dead": g.dead, "after": g.after, "before": g.before, "stops": g.stops,
        "units": [{"body": u["body"], "args": u["args"], "ends": u["kind"] == "function"} for u in skel.units],
    }  # fmt: skip
    if job.get("live"):
        res["live"] = liveflow.steps(text, skel, job["live"], 3000)
    return res


def main():
    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as o:
        for line in f:
            o.write(json.dumps(run(json.loads(line))) + "\n")


if __name__ == "__main__":
    main()
