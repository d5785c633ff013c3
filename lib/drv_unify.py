"""Records generalizations of code fragments; see specs/AntiUnifyTrace.tla."""
import json
import sys

from loguru import logger

logger.remove()
from astroid import nodes  # noqa: E402

from analysed import Unparsable, analysed  # noqa: E402
from terms import Terms, size  # noqa: E402

from edulint.linting.analyses.antiunify import AunifyVar, antiunify  # noqa: E402
from edulint.linting.analyses.var_events import VarEventType  # noqa: E402


def scope_path(scope):
    res = []
    while scope is not None:
        res.append([type(scope).__name__, scope.fromlineno])
        scope = scope.parent.scope() if scope.parent is not None else None
    return res[::-1]


def events_in(module):
    seen = set()
    for node in module.nodes_of_class(nodes.NodeNG):
        for x in (node, getattr(node, "args", None)):
            loc = getattr(x, "cfg_loc", None)
            if loc is not None and id(loc) not in seen:
                seen.add(id(loc))
                for _, e in loc.var_events.all():
                    yield e


def inside(e, frag):
    return any(n is e.node or n.parent_of(e.node) for n in frag)


def surroundings(module, frags):
    """the names used after each fragment; those that come from before with their scopes"""
    after, before = [], []
    every = list(events_in(module))
    for frag in frags:
        frag = frag if isinstance(frag, list) else [frag]
        mine = {id(e) for e in every if inside(e, frag)}
        a, b = set(), []
        for e in every:
            # flows by calls of inner functions are approximated
            if id(e) not in mine or e.node.frame() is not frag[0].frame():
                continue
            if any(id(u) not in mine and u.type in (VarEventType.READ, VarEventType.MODIFY) and u.node.frame() is frag[0].frame() for u in e.uses):
                a.add(e.var.name)
            if any(id(d) not in mine for d in e.definitions):
                b.append([e.var.name, json.dumps(scope_path(e.var.scope))])
        after.append(sorted(a))
        before.append([list(x) for x in sorted({tuple(x) for x in b})])
    scopes = sorted({s for b in before for _, s in b})
    nested = [[s, t] for s in scopes for t in scopes if starts(json.loads(s), json.loads(t)) or starts(json.loads(t), json.loads(s))]
    return after, before, nested


def starts(s, t):
    return t[: len(s)] == s


def find(module, place):
    """the fragment at [line of the block's owner, attribute, from, to] or a single statement or value"""
    line, attr, a, b = place
    for n in module.nodes_of_class(nodes.NodeNG):
        if n.lineno == line and n.col_offset is not None and n.is_statement and isinstance(getattr(n, attr, None), list):
            return getattr(n, attr)[a:b]
    raise Unparsable("no such place")


def run(job):
    res = {"skip": "", "raised": "", "recs": [], "holes": []}
    try:
        module = analysed(job["text"])
        if not module.cfg_loc.var_events.successful:
            raise Unparsable("not analysed")
        frags = [find(module, p) for p in job["places"]]
        if job.get("single"):
            frags = [f[0] for f in frags]
    except Unparsable as e:
        res["skip"] = str(e)
        return res
    plain = Terms()
    frs = [plain.term(f) for f in frags]
    if sum(map(size, frs)) > job.get("most", 700):
        res["skip"] = "big"
        return res
    after, before, nested = surroundings(module, frags)
    for strict in (False, True):
        try:
            got = antiunify(frags, require_name_consistency=strict)
            rec = {"frs": frs, "strict": strict, "none": got is None, "core": {"t": "leaf", "s": ""}, "subs": [], "after": after, "before": before, "nested": nested}
            if got is not None:
                core, avars = got
                t = Terms(lambda v: isinstance(v, AunifyVar), {id(v): i for i, v in enumerate(avars, 1)})
                rec["core"] = t.term(core)
                rec["subs"] = [[name(v, x) for x in v.subs] for v in avars]
        except Exception as e:
            res["raised"] = repr(e)[:300]
            return res
        res["recs"].append(rec)
    return res


def name(avar, x):
    if isinstance(x, str) and isinstance(avar.parent, (nodes.Name, nodes.AssignName)):
        return {"t": "name", "s": x}
    return Terms().term(x)


def main():
    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as o:
        for line in f:
            o.write(json.dumps(run(json.loads(line))) + "\n")
            o.flush()


if __name__ == "__main__":
    main()
