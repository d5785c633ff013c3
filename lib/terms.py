"""Code fragments of astroid as terms; see specs/AntiUnify.tla. Fields are found from the signatures of the classes."""
import inspect

from astroid import nodes

NOISE = {"self", "args", "kwargs", "lineno", "col_offset", "parent", "end_lineno", "end_col_offset", "kind", "type_annotation", "position", "newstyle", "doc_node",
         "vararg_node", "kwarg_node", "simple"}  # fmt: skip
RENAMED = {("ImportFrom", "fromname"): "modname", ("ClassDef", "metaclass"): "_metaclass"}


def fields(cls):
    res = []
    params = [p for p in inspect.signature(cls.__init__).parameters if p not in NOISE]
    if hasattr(cls, "postinit"):
        params += [p for p in inspect.signature(cls.postinit).parameters if p not in NOISE or p == "args"]
    for p in params:
        # the context of lists and tuples follows from what is around
        if not p.startswith("type_comment") and p != "self" and not (p == "ctx" and cls in (nodes.List, nodes.Tuple)):
            res.append(RENAMED.get((cls.__name__, p), p))
    return sorted(set(res))


_FIELDS = {}


class Terms:
    """is_hole(value) tells the holes of a generalization; their number is in ids"""

    def __init__(self, is_hole=lambda v: False, ids=None):
        self.is_hole, self.ids = is_hole, ids or {}

    def hole(self, h):
        return {"t": "hole", "id": self.ids.get(id(h), 0)}

    def term(self, v):
        if self.is_hole(v):
            return self.hole(v)
        if isinstance(v, (nodes.Name, nodes.AssignName)):
            cls = type(v).__name__
            if self.is_hole(v.name):
                return {"t": "node", "c": cls, "k": [self.hole(v.name)]}
            return {"t": "node", "c": cls, "k": [{"t": "name", "s": v.name}]}
        if isinstance(v, nodes.NodeNG):
            if type(v) not in _FIELDS:
                _FIELDS[type(v)] = fields(type(v))
            return {"t": "node", "c": type(v).__name__, "k": [self.term(getattr(v, f)) for f in _FIELDS[type(v)]]}
        if isinstance(v, (list, tuple)):
            # a hole for the whole list
            if len(v) == 1:
                inner = v[0] if isinstance(v[0], tuple) else (v[0],)
                holes = [x for x in inner if self.is_hole(x) and x.subs and all(isinstance(s, list) for s in x.subs)]
                if holes:
                    return self.hole(holes[0])
            return {"t": "list", "k": [self.term(x) for x in v]}
        return {"t": "leaf", "s": f"{type(v).__name__} {v!r}"}


def size(t):
    return 1 + sum(map(size, t.get("k", [])))
