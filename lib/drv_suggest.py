"""Records the suggestions EduLint makes about functions; see specs/SuggestTrace.tla.

A job is a list of functions [text, vars]; the answer has the records of the suggestions read,
those that could not be read, and the texts of the functions."""
import ast
import copy
import json
import os
import random
import re
import sys
import tempfile
from itertools import product

from loguru import logger

logger.remove()
from astroid import MANAGER  # noqa: E402
from pylint.lint import PyLinter  # noqa: E402

import pyexpr  # noqa: E402

CODES = os.environ.get("CODES", "").split() or """R6201 R6202 R6203 R6204 R6205 R6206 R6207 R6208 R6209 R6210 R6211 R6212 R6213 R6214 R6215 R6216 R6217 R6218
R6219 R6220 R6221 R6222 R6223 R6224 R6607 R6608 R6609 R6611 R6612 R6613 R6614 R6615 R6617 R6618 R6619""".split()
REPLACED = r"'(.*)' can be replaced with '(.*)'$"
TEMPLATES = {
    "R6204": r"The if expression can be replaced with '(.*)'$", "R6201": r"The if statement can be replaced with 'return (.*)'$",
    "R6203": r"The conditional assignment can be replaced with '(\w+) = (.*)'$", "R6205": r"Use 'if (.*): <else body>' instead of 'pass'$",
    "R6206": r"", "R6207": r"The if statement can be merged with the nested one to 'if (.*):'$",
    "R6208": r"The if statement can be merged with the following one to 'if (.*):'$",
    "R6211": REPLACED, "R6213": REPLACED, "R6214": REPLACED, "R6215": REPLACED, "R6216": REPLACED,
    "R6212": r"'(.*)' can be simplified to '(.*)'\. Simplify the condition if",
    "R6217": r"This '(elif|else)' is unreachable", "R6218": r"", "R6221": r"", "R6611": r"", "R6612": r"",
    "R6219": r"'(.*)' can be replaced with '(.*)', because some operands of the '(and|or)' are always (True|False)\.$",
    "R6220": r".*we suggest this order: '(.*)' with these possibly simplified test conditions respectively: '(.*)'\.$",
    "R6222": r"This condition is always (True|False)", "R6223": r"The next (\d+) if statements", "R6224": r"The next (\d+) if statements",
    "R6607": r"Use (multiplication|exponentiation) instead of repeated", "R6608": r"Redundant arithmetic: (.*)$",
    "R6609": r"Use augmented assignment: '(.*) (\+|-|\*|/|//|%|\*\*|<<|>>|\||&|\^|@)= (.*)'$",
    "R6613": r"Use '(.*)' directly rather than as '(.*)'\.$", "R6614": r'Use "(.*)" instead of using the magical constant (-?\d+)\.$',
    "R6615": r'Remove the call to \'ord\' and compare to the string directly "(.*)" instead of using',
    "R6617": r"Consider replacing '(.*)' with '(.*)'$",
}  # fmt: skip
TEMPLATES["R6209"] = TEMPLATES["R6204"]
TEMPLATES["R6202"] = TEMPLATES["R6201"]
TEMPLATES["R6210"] = TEMPLATES["R6203"]
TEMPLATES["R6618"] = TEMPLATES["R6619"] = TEMPLATES["R6617"]


class Unread(Exception):
    """not a suggestion this can be judged"""


class Broken(Exception):
    """the suggestion is not Python"""


def linter(checkers=("local_defects", "simplifiable_if")):
    lint = PyLinter()
    lint.load_default_plugins()
    lint.load_plugin_modules(["edulint.linting.analyses.patcher"] + [f"edulint.linting.checkers.{c}" for c in checkers])
    lint.disable("all")
    for c in CODES:
        lint.enable(c)
    return lint


LINT = None
DIR = None
SAID = []


def said(lint, text):
    """[(code, node, message)] about the module"""
    path = os.path.join(DIR, "prog.py")
    with open(path, "w", encoding="utf8") as f:
        f.write(text)
    MANAGER.astroid_cache.pop("prog", None)
    SAID.clear()
    lint.check([path])
    return list(SAID)


def hook(lint):
    plain = lint.add_message

    def add_message(msgid, line=None, node=None, args=None, *rest, **kw):
        for d in lint.msgs_store.get_message_definitions(msgid):
            if d.msgid in CODES and lint.is_message_enabled(d.msgid):
                SAID.append((d.msgid, node, d.msg % args if args else d.msg))
        return plain(msgid, line, node, args, *rest, **kw)

    lint.add_message = add_message


def negated(text, test):
    """<negated A> as not (A)"""
    if "<negated " not in text:
        return text
    i = text.index("<negated ")
    start = i + len("<negated ")
    found = []
    for j in range(start, len(text)):
        if text[j] == ">":
            a = pyexpr.parse(text[start:j])
            rest = f"{text[:i]}(not ({text[start:j]})){text[j + 1:]}"
            if a is not None and pyexpr.parse(rest.replace("<negated ", "not (").replace("> ", ") ")) is not None or a is not None and pyexpr.parse(rest) is not None:
                found.append((ast.dump(a) != ast.dump(test), j, negated(rest, test)))
    if not found:
        raise Broken(text)
    return min(found)[2]


def key(n):
    return (type(n).__name__, n.lineno, n.col_offset)


class Source:
    def __init__(self, text):
        self.text = text
        self.tree = ast.parse(text)
        self.at, self.up = {}, {}
        for n in ast.walk(self.tree):
            if hasattr(n, "lineno"):
                name = {"ListComp": "ListComp"}.get(type(n).__name__, type(n).__name__)
                self.at.setdefault((name if name != "Constant" else "Const", n.lineno, n.col_offset, n.end_lineno, n.end_col_offset), n)
            for f, v in ast.iter_fields(n):
                for i, c in enumerate(v if isinstance(v, list) else [v]):
                    if isinstance(c, ast.AST):
                        self.up[id(c)] = (n, f, i if isinstance(v, list) else None)

    def find(self, node):
        n = self.at.get((type(node).__name__, node.lineno, node.col_offset, node.end_lineno, node.end_col_offset))
        if n is None:
            raise Unread("place")
        return n

    def after(self, n):
        p, f, i = self.up[id(n)]
        block = getattr(p, f)
        if i is None or i + 1 >= len(block):
            raise Unread("nothing after")
        return block[i + 1]

    def chain(self, n):
        """the Ifs of the chain n is in, from the first"""
        while True:
            p, f, _ = self.up[id(n)]
            if isinstance(p, ast.If) and f == "orelse" and len(p.orelse) == 1:
                n = p
            else:
                break
        return chain_from(n)

    def truth_only(self, n):
        """does only the truth of n matter?"""
        while True:
            p, f, _ = self.up[id(n)]
            if isinstance(p, (ast.If, ast.While, ast.IfExp, ast.Assert)) and f == "test":
                return True
            if isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Not):
                return True
            if isinstance(p, ast.comprehension) and f == "ifs":
                return True
            if not isinstance(p, ast.BoolOp):
                return False
            n = p


def chain_from(n):
    res = [n]
    while len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
        n = n.orelse[0]
        res.append(n)
    return res


def apart(text):
    """text split at the commas outside brackets"""
    res, depth, cur = [], 0, ""
    for i, c in enumerate(text):
        depth += (c in "([{") - (c in ")]}")
        if c == "," and depth == 0:
            res.append(cur)
            cur = ""
        else:
            cur += c
    return [x.strip() for x in res + [cur]]


class Reader:
    def __init__(self, src):
        self.src = src

    def read(self, code, node, said):
        m = re.match(TEMPLATES[code], said, re.S)
        if m is None:
            raise Unread("message")
        self.opaque = set()
        self.trees = []
        n = self.src.find(node)
        r = {"code": code, "said": said, "py": []}
        r.update(getattr(self, "do_" + self.KIND.get(code, code))(code, n, m))
        return r

    def p(self, text, test=None):
        if test is not None:
            text = negated(text, test)
        e = pyexpr.parse(text)
        if e is None:
            raise Broken(text)
        return self.e(e)

    def e(self, tree):
        self.trees.append(tree)
        return pyexpr.expr(tree, self.opaque)

    def b(self, stmts):
        self.trees.append(list(stmts))
        return pyexpr.block(stmts, self.opaque)

    KIND = {
        "R6204": "ifexp", "R6209": "ifexp", "R6201": "ret", "R6202": "ret", "R6203": "assign", "R6210": "assign", "R6211": "group",
        "R6212": "group", "R6213": "group", "R6214": "group", "R6215": "group", "R6217": "never", "R6221": "never", "R6612": "never",
        "R6218": "always", "R6611": "always", "R6223": "ifs", "R6224": "ifs", "R6617": "inrange", "R6618": "inrange", "R6619": "inrange",
    }  # fmt: skip

    def do_ifexp(self, code, n, m):
        return {"e": self.e(n), "new": self.p(m[1], n.test)}

    def branches(self, n):
        """the If, and what follows it if that is its else"""
        return ([n], n.orelse[0]) if n.orelse else ([n, self.src.after(n)], self.src.after(n))

    def do_ret(self, code, n, m):
        block, _ = self.branches(n)
        return {
            "block": self.b(block), "repl": [{"k": "return", "e": self.p(m[1], n.test)}], "loose": True, "test": self.e(n.test), "name": "",
        }  # fmt: skip

    def do_assign(self, code, n, m):
        return {
            "block": self.b([n]), "repl": [{"k": "assign", "ns": [m[1]], "es": [self.p(m[2], n.test)]}],
            "loose": True, "test": self.e(n.test), "name": m[1],
        }  # fmt: skip

    def strict(self, n, block, repl):
        return {"block": block, "repl": repl, "loose": False, "test": self.e(n.test), "name": ""}

    def do_R6205(self, code, n, m):
        new = {"k": "if", "c": self.p(m[1], n.test), "body": self.b(n.orelse), "orelse": []}
        return self.strict(n, self.b([n]), [new])

    def do_R6206(self, code, n, m):
        _, other = self.branches(n)
        return {"thenvalue": n.body[0].value is not None, "elsevalue": other.value is not None}

    def do_R6207(self, code, n, m):
        return self.strict(n, self.b([n]), [{"k": "if", "c": self.p(m[1], n.test), "body": self.b(n.body[0].body), "orelse": []}])

    def do_R6208(self, code, n, m):
        new = {"k": "if", "c": self.p(m[1], n.test), "body": self.b(n.body), "orelse": []}
        return self.strict(n, self.b([n, self.src.after(n)]), [new])

    def do_group(self, code, n, m):
        return {"e": self.e(n), "old": self.p(m[1]), "new": self.p(m[2])}

    def do_R6216(self, code, n, m):
        return {"e": self.e(n), "old": self.p(m[1]), "new": self.p(m[2]), "boolean": self.src.truth_only(n)}

    def do_R6222(self, code, n, m):
        return {"e": self.e(n), "want": m[1] == "True"}

    def do_never(self, code, n, m):
        p, f, i = self.src.up[id(n)]
        if isinstance(n, ast.If) and isinstance(p, ast.If) and f == "orelse" and len(p.orelse) == 1:
            c = self.src.chain(n)
            at = c.index(n) + 1
            if code == "R6217" and m[1] != "elif":
                raise Broken("elif called else")
        elif isinstance(p, ast.If) and f == "orelse" and i == 0 and code != "R6221":
            c = self.src.chain(p)
            at = len(c) + 1
            if code == "R6217" and m[1] != "else":
                raise Broken("else called elif")
        else:
            raise Broken("not on a branch")
        return {"tests": [self.e(x.test) for x in c], "at": at}

    def do_always(self, code, n, m):
        c = self.src.chain(n)
        if c[0] is n:
            raise Broken("not on an elif")
        return {"tests": [self.e(x.test) for x in c], "at": c.index(n) + 1}

    def do_R6219(self, code, n, m):
        c = self.src.chain(n)
        return {"tests": [self.e(x.test) for x in c], "at": c.index(n) + 1, "old": self.p(m[1]), "new": self.p(m[2])}

    def do_R6220(self, code, n, m):
        c = chain_from(n)
        order = [int(x.strip().rstrip(".")) for x in m[1].split(",")]
        conds = apart(m[2])
        if conds and conds[-1] == "else block":
            conds.pop()
            if len(conds) != len(order) - 1:
                raise Broken(m[0])
        elif len(conds) != len(order):
            raise Broken(m[0])
        return {"tests": [self.e(x.test) for x in c], "haselse": bool(c[-1].orelse), "order": order, "conds": [self.p(x) for x in conds]}

    def do_ifs(self, code, n, m):
        ifs = [n]
        for _ in range(int(m[1])):
            ifs.append(self.src.after(ifs[-1]))
        if not all(isinstance(x, ast.If) for x in ifs):
            raise Broken("not that many ifs")
        return {"block": self.b(ifs)}

    def do_R6607(self, code, n, m):
        return {"e": self.e(n), "op": "+" if m[1] == "multiplication" else "*"}

    def do_R6608(self, code, n, m):
        if isinstance(n, ast.AugAssign):
            n = ast.BinOp(ast.Name(n.target.id, ast.Load()) if isinstance(n.target, ast.Name) else n.target, n.op, n.value)
        return {"e": self.e(n)}

    def do_R6609(self, code, n, m):
        v = self.p(m[3])
        return {"block": self.b([n]), "repl": [{"k": "aug", "n": m[1], "op": m[2], "e": v}], "loose": False, "test": v, "name": ""}

    def do_R6613(self, code, n, m):
        # prev is True, for every such pair of the comparison
        vals = [n.left] + n.comparators
        for i, (a, o, b) in enumerate(zip(vals, n.ops, n.comparators)):
            if isinstance(o, (ast.Is, ast.IsNot)) and isinstance(b, ast.Constant) and isinstance(b.value, bool):
                alone = ast.Compare(a, [o], [b])
                if ast.unparse(alone).replace("(", "").replace(")", "") == m[2].replace("(", "").replace(")", ""):
                    return {"old": self.e(alone), "new": self.p(m[1]), "val": self.e(a), "e": self.p(m[2])}
        raise Unread("which pair")

    def replaced(self, n, text):
        """the expression n is part of, with the text put in n's place"""
        p, _, _ = self.src.up[id(n)]
        lines = self.src.text.splitlines()
        line = lines[n.lineno - 1]
        if p.lineno != p.end_lineno:
            raise Unread("lines")
        return p, line[p.col_offset : n.col_offset] + text + line[n.end_col_offset : p.end_col_offset]

    def do_R6614(self, code, n, m):
        p, new = self.replaced(n, m[1])
        return {"e": self.e(p), "new": self.p(new)}

    def do_R6615(self, code, n, m):
        p, _, _ = self.src.up[id(n)]
        m2 = re.match(r"(<|<=|>|>=|==|!=) ('.')$|('.') (<|<=|>|>=|==|!=)$", m[1], re.S)
        if m2 is None:
            raise Unread("operator")
        vals = [p.left] + p.comparators
        i = vals.index(n)
        other, op = (vals[i - 1], p.ops[i - 1]) if m2[1] else (vals[i + 1], p.ops[i])
        letter = m2[2] or m2[3]
        o = ast.unparse(other)
        new = f"({o}) {m2[1]} ord({letter})" if m2[1] else f"ord({letter}) {m2[4]} ({o})"
        old = ast.Compare(other, [op], [n]) if m2[1] else ast.Compare(n, [op], [other])
        return {"e": self.e(old), "new": self.p(new)}

    def do_inrange(self, code, n, m):
        return {"e": self.e(n), "old": self.p(m[1]), "new": self.p(m[2])}


def domains(vars, tree, opaque, cap):
    ints, floats, chars = set(), set(), set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and not isinstance(n.value, bool):
            if isinstance(n.value, int) and abs(n.value) < pyexpr.LIMIT:
                ints.add(n.value)
            elif isinstance(n.value, float) and pyexpr.num(n.value)["t"] == "f":
                floats.add(n.value)
            elif isinstance(n.value, str) and len(n.value) == 1:
                chars.add(ord(n.value))
    small = list(range(-2, 3))
    near = sorted({c + d for c in ints for d in (-1, 0, 1)} | {-c + d for c in ints for d in (-1, 0, 1) if c < 8}, key=lambda v: (abs(v), v))
    doms = {}
    for v, kind in vars:
        if kind == "bool":
            doms[v] = [True, False]
        elif kind == "char":
            doms[v] = [chr(c) for c in sorted({c + d for c in ints | chars for d in (-1, 0, 1) if 32 <= c <= 126})][:40] or ["a"]
        elif kind == "list":
            doms[v] = [[a, b] for a, b in ((0, 1), (2, -1), (3, 3), (-2, 0), (1, 5))]
        elif kind == "float":
            doms[v] = sorted({float(x) for x in small + near[:8]} | floats | {x + 0.5 for x in (-2, -1, 0, 1)} | {x + d for x in floats for d in (-0.5, 0.5)})
        elif kind == "number":
            doms[v] = sorted(set(small + near[:6])) + [-0.5, 0.5, 1.5]
        elif kind == "nat":
            doms[v] = sorted({abs(x) for x in small + near})
        else:
            doms[v] = sorted(set(small + near[:16]))
    rnd = random.Random(1)
    while True:
        size = 1
        for d in doms.values():
            size *= len(d)
        if size <= cap:
            break
        big = max(doms, key=lambda k: len(doms[k]))
        if len(doms[big]) <= 3:
            break
        doms[big].remove(rnd.choice(doms[big]))
    return doms


class Next(Exception):
    pass


def python_exec(stmts, env):
    """the end of the block according to Python"""
    body = [ast.parse("\n".join(["def _f(" + ", ".join(env) + "):", "    pass"])).body[0]]
    tail = ast.parse("return _Next(locals())").body
    body[0].body = list(stmts) + tail
    mod = ast.Module(body, [])
    ast.fix_missing_locations(mod)
    out = []

    class _Next:
        def __init__(self, env):
            self.env = dict(env)

    glob = {"_Next": _Next, "print": out.append}
    try:
        exec(compile(mod, "x", "exec"), glob)
        v = glob["_f"](**{k: copy.deepcopy(v) for k, v in env.items()})
    except SyntaxError:
        return None
    except Exception:
        return {"out": "raise", "tr": out, "val": pyexpr.num(None), "env": []}
    if isinstance(v, _Next):
        return {"out": "next", "tr": out, "val": pyexpr.num(None), "env": [{"n": k, "v": pyexpr.num(x)} for k, x in v.env.items()]}
    return {"out": "return", "tr": out, "val": pyexpr.num(v), "env": []}


def python_says(trees, doms, rnd, envs=2):
    names = {n for n in doms if n.isidentifier()}
    res = []
    for t in trees:
        for _ in range(envs):
            env = {n: rnd.choice(doms[n]) for n in names}
            pairs = [{"n": n, "v": pyexpr.num(v)} for n, v in env.items()]
            if isinstance(t, list):
                if any(isinstance(x, (ast.Break, ast.Continue)) for s in t for x in ast.walk(s)):
                    continue
                want = python_exec(t, env)
                if want is not None:
                    res.append({"k": "block", "block": pyexpr.block(t), "env": pairs, "fuel": 0, "want": want})
            else:
                try:
                    v = pyexpr.num(eval(compile(ast.fix_missing_locations(ast.Expression(t)), "x", "eval"), {}, dict(env)))
                except NameError:
                    continue
                except Exception:
                    v = {"t": "e", "n": 0, "d": 1}
                res.append({"k": "expr", "e": pyexpr.expr(t), "env": pairs, "want": v})
    return res


def run(lint, fns, cap):
    lines, spans = [], []
    for text, vars in fns:
        spans.append((len(lines) + 1, len(lines) + text.count("\n") + 1))
        lines += text.rstrip("\n").split("\n") + ["", ""]
    module = "\n".join(lines) + "\n"
    recs, unread, broken = [], [], []
    msgs = said(lint, module)
    src = Source(module)
    rnd = random.Random(len(module))
    for code, node, msg in msgs:
        k = next((i for i, (a, b) in enumerate(spans) if a <= node.lineno <= b), None)
        if k is None:
            continue
        reader = Reader(src)
        what = {"fn": k, "code": code, "said": msg, "line": node.lineno - spans[k][0] + 1}
        try:
            r = reader.read(code, node, msg)
        except Unread as e:
            unread.append({**what, "why": str(e)})
            continue
        except Broken as e:
            broken.append({**what, "why": str(e)})
            continue
        doms = domains(fns[k][1], ast.parse(fns[k][0]), reader.opaque, cap)
        r["vars"] = [{"n": n, "dom": [pyexpr.num(v) for v in d]} for n, d in doms.items()]
        r["py"] = python_says(reader.trees, doms, rnd)
        r["line"] = what["line"]
        recs.append([k, r])
    return {"recs": recs, "unread": unread, "broken": broken}


def main():
    global LINT, DIR
    DIR = tempfile.mkdtemp(dir=os.getcwd())
    LINT = linter()
    hook(LINT)
    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as o:
        for line in f:
            job = json.loads(line)
            o.write(json.dumps(run(LINT, job["fns"], job.get("cap", 400))) + "\n")
            o.flush()


if __name__ == "__main__":
    main()
