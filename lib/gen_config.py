"""Random configuration cases for specs/Config.tla."""
import random
import sys
from pathlib import Path

try:
    import tomllib
except ImportError:  # pragma: no cover
    import tomli as tomllib

OPTS = [
    "config-file", "pylint", "flake8", "allowed-onechar-names", "disallowed-builtin-names",
    "no-flake8", "ignore-infile-config-for", "export-groups", "set-groups", "language-file",
]  # fmt: skip
GROUPS = ["g", "h", "big", "python-specific", "nosuch"]
SYMS = ["invalid-name", "C0103", "unreachable", "W0101", "C", "basic", "use-foreach", "R6307"]
COVER = [
    {"m": "invalid-name", "n": ["invalid-name", "c0103", "c", "basic"]},
    {"m": "unreachable", "n": ["unreachable", "w0101", "w", "basic"]},
    {"m": "use-foreach", "n": ["use-foreach", "r6307", "r"]},
]


def toml_to_val(x):
    if isinstance(x, bool):
        return {"t": "i", "s": str(x)}
    if isinstance(x, int):
        return {"t": "i", "s": str(x)}
    if isinstance(x, str):
        return {"t": "s", "s": x}
    if isinstance(x, list):
        return {"t": "l", "l": x}
    if isinstance(x, dict):
        return {"t": "d", "d": [{"k": k, "v": toml_to_val(v)} for k, v in x.items()]}
    raise ValueError(x)


def packaged(repo):
    res = []
    for f in sorted(Path(repo, "edulint/config/files").glob("*.toml")):
        d = tomllib.loads(f.read_text())
        res.append(
            {"p": f.stem, "ok": True, "e": [{"k": k, "v": toml_to_val(v)} for k, v in d.items()]}
        )
    return res


REALCODE = [
    "import os, sys", "def f(X):", "    return X", "    print(1) ", "y=1  # noqa: E501", "y", "Q=2  # pylint: disable=all", "Q",
]  # fmt: skip


MAGIC = [
    "x = 1  # noqa", "x = 1  #NOQA: E501", "# flake8: noqa", "x = 2 # Flake8:  NoQA", "x = 3  # pylint: disable=all",
    "# pylint: enable=C0103", "#pylint:disable=invalid-name", "# pylint:   Enable=x", "from ib111 import x  # noqa",
    "from ib111 import x  # noqa  # pylint: disable=W", "x = '# noqa'", "# no qa", "# pylint disable", "x = 4  # some text noqa",
    "# pylint: skip-file", "x = 5  # a # noqa", "x = 6  # noqa # noqa", "# type: ignore # pylint: disable=x", "y = \"  # noqa\"",
    "#\tnoqa", "x = 7", "# nopylint: disable=x",
]  # fmt: skip


class Gen:
    def __init__(self, seed, **w):
        self.r = random.Random(seed)
        self.w = {
            "malformed": 0.05, "groups": 0.3, "ignore": 0.05, "files": 1, "cfg": 0.6, "depth": 2,
            "default": 0.05, "pylint": 0.3, "badcfg": 0.0, "lang": 0.05, "implicit": 0.1,
            "remote": 0.0, "case": 0.1, "badtype": 0.03, "plain": 0, "magic": 0, "real": 0,
        }  # fmt: skip
        self.w.update(w)

    def p(self, key):
        return self.r.random() < self.w[key]

    # ---- tokens
    def name(self, o):
        if o == "config-file" and self.r.random() < 0.4:
            o = "config"
        if self.p("case"):
            o = "".join(c.upper() if self.r.random() < 0.4 else c for c in o)
        return o

    def pyl(self):
        r = self.r
        x = r.random()
        if self.w["real"]:
            syms = r.sample(["invalid-name", "C0103", "unused-import", "W0611", "unreachable", "W0101", "multiple-imports", "C0410", "pointless-statement", "W0104"], r.choice([1, 2, 2, 3]))
            return r.choice(["--enable=", "--enable=", "--enable=", "--disable="]) + ",".join(syms)
        if x < 0.15:
            return r.choice(["--enable=all", "--disable=all", "--disable=all", "--Disable=ALL"])
        if x < 0.75:
            syms = r.sample(SYMS, r.choice([1, 1, 2, 3]))
            return r.choice(["--enable=", "--disable=", "--enable=", "--Enable="][: 4 if self.p("case") else 3]) + ",".join(syms)
        return r.choice(
            ["--max-line-length=79", "--Bad-Names=Foo,bar", "--good-names-rgxs=^[A-Z]$", "--enable-all-extensions",
             "--disable-x=Y", "--enable=noop", "--max-args=3"]
        )  # fmt: skip

    def flk(self):
        if self.w["real"]:
            return self.r.choice(["--select=E225,F401", "--extend-select=E225", "--select=E401,W291", "--extend-select=F401,E999", "--max-line-length=20"])
        return self.r.choice(
            ["--select=E1,W2", "--extend-select=E501", "--max-line-length=20", "--Ignore=E", "--select=F841"]
        )

    def value(self, o, refs):
        r = self.r
        if o == "config-file":
            return r.choice(refs) if refs else "empty"
        if o == "pylint":
            return self.pyl()
        if o == "flake8":
            return self.flk()
        if o == "allowed-onechar-names":
            return r.choice(["", "ij", "abc", "n", "i j"])
        if o == "disallowed-builtin-names":
            return r.choice(["", "sum,len", "id", "Len"])
        if o == "ignore-infile-config-for":
            return r.choice(["all", "edulint", "flake8", "pylint", "flake8,pylint", "", "pylint,all"])
        if o in ("set-groups", "export-groups"):
            k = r.choice([0, 1, 1, 1, 2, 3])
            return ",".join(r.sample(GROUPS, k))
        if o == "language-file":
            return r.choice(["lang.toml", "/R/lang.toml", "sub/lang2.toml", "nolang.toml"])
        return r.choice(["true", "on", "false", "x"])

    def option(self):
        r = self.r
        x = r.random()
        if self.w["plain"]:
            if self.p("ignore"):
                return "ignore-infile-config-for"
            return r.choice(["allowed-onechar-names", "disallowed-builtin-names", "export-groups", "no-flake8"])
        if x < self.w["pylint"]:
            return "pylint"
        if r.random() < self.w["groups"]:
            return "set-groups"
        if self.p("ignore"):
            return "ignore-infile-config-for"
        if self.p("lang"):
            return "language-file"
        return r.choice(["flake8", "allowed-onechar-names", "disallowed-builtin-names", "no-flake8", "export-groups", "pylint"])

    def tok(self, refs=()):
        r = self.r
        if self.p("malformed"):
            return r.choice(
                [
                    {"n": "nonsense", "h": True, "v": "x"},
                    {"n": "nonsense", "h": False, "v": ""},
                    {"n": "", "h": True, "v": "a"},
                    {"n": "pylint", "h": False, "v": ""},
                    {"n": "no-flake8", "h": True, "v": "true"},
                    {"n": "set_groups", "h": True, "v": "g"},
                    {"n": "no_flake8", "h": False, "v": ""},
                    {"n": "allowed-onechar-names", "h": False, "v": ""},
                    {"n": "set-groups", "h": False, "v": ""},
                    {"n": "Config-File", "h": False, "v": ""},
                    {"n": "--pylint", "h": True, "v": "--enable=all"},
                    {"n": " pylint", "h": True, "v": "--enable=all"},
                    {"n": "pylint ", "h": True, "v": "--enable=all"},
                ]
            )
        if refs and r.random() < self.w["cfg"] * 0.3:
            o = "config-file"
        else:
            o = self.option()
        if o == "no-flake8":
            return {"n": self.name(o), "h": False, "v": ""}
        v = self.value(o, refs)
        if r.random() < 0.03:
            v = v + "=" + r.choice(["", "x", "a=b"])
        return {"n": self.name(o), "h": True, "v": v}

    def toks(self, refs, n=None):
        n = self.r.choice([0, 1, 1, 2, 3, 4]) if n is None else n
        return [self.tok(refs) for _ in range(n)]

    # ---- in-file lines
    def lines(self, refs):
        r = self.r
        res = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            x = r.random()
            if x < 0.75:
                res.append(
                    {"k": "opt", "t": self.toks(refs, r.choice([0, 1, 1, 2])), "q": r.choice([0, 0, 1, 2]),
                     "pre": r.choice(["# edulint: ", "# edulint: ", "#edulint:", "    # EduLint:  ", "## # edulint: ", "#\t#edulint:\t"])}
                )  # fmt: skip
            elif x < 0.80 and self.w["malformed"] > 0:
                res.append({"k": "bad", "raw": '# edulint: allowed-onechar-names="x set-groups=g'})
            elif x < 0.82:
                res.append({"k": "ib", "raw": "from ib111 import week_01", "t": []})
            else:
                res.append(
                    {"k": "code", "raw": r.choice(["x = 1", "x = 1  # edulint: allowed-onechar-names=zz",
                      "# edulint allowed-onechar-names=zz", "# noqa", "s = '''\n  # nothing\n'''", "# edulint2: no-flake8", "from ib111 import x"])}
                )  # fmt: skip
        if self.w["real"]:
            res += [{"k": "code", "raw": x} for x in REALCODE]
        if self.w["magic"]:
            res += [{"k": "code", "raw": r.choice(MAGIC)} for _ in range(r.choice([1, 2, 3, 5]))]
        for ln in res:
            ln.setdefault("t", [])
        return res

    # ---- configuration files
    def badval(self):
        return self.r.choice(
            [{"t": "x", "raw": "1.5"}, {"t": "x", "raw": '[["a"]]'}, {"t": "x", "raw": "[1, 2]"},
             {"t": "x", "raw": "2020-01-01"}, {"t": "d", "d": [{"k": "a", "v": {"t": "s", "s": "b"}}]}]
        )  # fmt: skip

    def lintdict(self, linter, bad=True):
        r = self.r
        d = []
        for _ in range(r.choice([1, 1, 2, 3])):
            s = self.pyl() if linter == "pylint" else self.flk()
            k, _, v = s[2:].partition("=")
            if any(e["k"] == k for e in d):
                continue
            if r.random() < 0.3 and v:
                d.append({"k": k, "v": {"t": "l", "l": v.split(",")}})
            elif bad and self.p("badtype"):
                d.append({"k": k, "v": self.badval()})
            elif r.random() < 0.1 and linter == "pylint":
                d.append({"k": "max-args", "v": {"t": "i", "s": "7"}})
            else:
                d.append({"k": k, "v": {"t": "s", "s": v}})
        ks = [e["k"] for e in d]
        return [e for i, e in enumerate(d) if ks.index(e["k"]) == i]

    def optval(self, o, refs):
        r = self.r
        if self.p("badtype"):
            return self.badval()
        if o in ("pylint", "flake8"):
            x = r.random()
            if x < 0.6:
                return {"t": "d", "d": self.lintdict(o)}
            if x < 0.9 or self.w["real"]:
                return {"t": "s", "s": self.value(o, refs)}
            return {"t": "i", "s": r.choice(["5", "True"])}
        v = self.value(o, refs)
        if o in ("set-groups", "export-groups", "disallowed-builtin-names", "ignore-infile-config-for") and r.random() < 0.5:
            return {"t": "l", "l": v.split(",") if v else []}
        if r.random() < 0.04 and o != "language-file":
            return {"t": "i", "s": r.choice(["3", "True", "False"])}
        return {"t": "s", "s": v}

    def groupdef(self):
        r = self.r
        d = []
        names = r.sample(["g", "h", "big", "allowed-onechar-names", "no-flake8", "flake8", "export-groups"], r.choice([1, 2, 3]))
        for n in names:
            if self.p("badtype"):
                d.append({"k": n, "v": r.choice([{"t": "s", "s": "x"}, {"t": "x", "raw": "1.5"}])})
                continue
            to = []
            for linter in r.sample(["pylint", "flake8", "Pylint", "edulint", "nolinter"][: 5 if self.p("badtype") else 2], r.choice([1, 2])):
                x = r.random()
                ln = linter.lower() if linter.lower() in ("pylint", "flake8") else "pylint"
                if x < 0.7:
                    v = {"t": "d", "d": self.lintdict(ln)}
                elif x < 0.9:
                    v = {"t": "s", "s": self.value(ln, [])}
                elif self.p("badtype"):
                    v = self.badval()
                elif self.w["real"]:
                    v = {"t": "l", "l": [self.value(ln, [])]}
                else:
                    v = {"t": "l", "l": ["--max-args=1"]}
                if not any(e["k"].lower() == linter.lower() for e in to):
                    to.append({"k": linter, "v": v})
            d.append({"k": n, "v": {"t": "d", "d": to}})
        return {"t": "d", "d": d}

    def langdef(self):
        r = self.r
        return [
            {"k": k, "v": {"t": "s", "s": r.choice(["přeloženo", "two {}", "x"])} if not self.p("badtype") else {"t": "i", "s": "1"}}
            for k in r.sample(["C0103", "unreachable", "E225", "use-foreach"], r.choice([1, 2]))
        ]  # fmt: skip

    def cfg(self, path, refs, base=None):
        r = self.r
        e = []
        if base is not None:
            e.append({"k": "config-file", "v": {"t": "s", "s": base}})
        elif r.random() < 0.1 and refs:
            e.append({"k": "config-file", "v": {"t": "s", "s": r.choice(refs)} if r.random() < 0.8 else {"t": "i", "s": "5"}})
        for _ in range(r.choice([0, 1, 2, 3, 4])):
            o = self.option()
            if any(x["k"].lower() == o for x in e):
                continue
            if o == "no-flake8":
                if self.w["malformed"] <= 0:
                    continue
                e.append({"k": o, "v": {"t": "i", "s": "True"}})
            elif o == "language-file" and path.startswith("http"):
                e.append({"k": o, "v": {"t": "s", "s": "/R/lang.toml"}})
            else:
                e.append({"k": self.name(o) if o != "config-file" else o, "v": self.optval(o, refs)})
        if self.p("malformed"):
            e.append({"k": r.choice(["nonsense", "set_groups"]), "v": {"t": "s", "s": "g"}})
        if not self.w["plain"] and r.random() < self.w["groups"] * 1.5:
            e.append({"k": "translations", "v": self.groupdef() if not (self.p("badtype") and self.p("malformed")) else {"t": "s", "s": "x"}})
        if r.random() < self.w["lang"] * 2:
            e.append({"k": "language-translations", "v": {"t": "d", "d": self.langdef()} if not self.p("badtype") else {"t": "i", "s": "1"}})
        if r.random() < 0.2:
            e.append({"k": "default-enabler-name", "v": {"t": "s", "s": "boss"}})
        seen, out = set(), []
        for x in e:
            if x["k"].lower() not in seen:
                seen.add(x["k"].lower())
                out.append(x)
        r.shuffle(out)
        return {"p": path, "ok": True, "e": out, "style": r.choice(["", "table"])}

    def case(self):
        r = self.r
        cwd = r.choice(["/R", "/R/w"])
        cfgs = []
        chain = []
        n = r.randint(0, self.w["depth"])
        places = ["/R/a.toml", "/R/sub/b.toml", "/R/sub/deep/c.toml", "/R/w/d.toml", "/R/ib111.toml", "/R/sub/ib111.toml"]
        if self.w["remote"]:
            places += ["http://H/r1.toml", "http://H/r2.toml"]
        r.shuffle(places)
        for i in range(n):
            path = places[i]
            base = None
            if chain and r.random() < 0.7:
                base = self.ref(chain[-1] if r.random() < 0.8 else r.choice(chain), path)
            cfgs.append(self.cfg(path, ["default"] if self.p("default") else [], base))
            chain.append(path)
        if self.p("badcfg"):
            path = places[n]
            x = r.random()
            if x < 0.4:
                cfgs.append({"p": path, "ok": False, "raw": r.choice(["not toml", "pylint = \n", "[a\n", 'a = "x"\na = 1\n']), "e": []})
            elif x < 0.7 and cfgs:
                # a cycle of references
                c = r.choice(cfgs)
                c["e"] = [x for x in c["e"] if x["k"] != "config-file"]
                tgt = chain[-1]
                c["e"].append({"k": "config-file", "v": {"t": "s", "s": self.ref(tgt, c["p"])}})
            chain.append(path)
        if self.p("lang") or self.w["lang"] >= 0.3:
            for lp in ["/R/lang.toml", "/R/sub/lang2.toml", "/R/w/lang.toml", "/R/sub/lang.toml"]:
                if r.random() < 0.5:
                    cfgs.append({"p": lp, "ok": True, "e": self.langdef()})
        files = []
        names = ["/R/m.py", "/R/sub/n.py", "/R/sub/o.py", "/R/sub/deep/q.py", "/R/w/s.py", "/R/other/t.py", "/R/other/data.txt", "/R/sub/notes.md"]
        r.shuffle(names)
        k = r.randint(1, self.w["files"])
        same = None
        for fp in names[:k]:
            refs = [self.ref(c, fp) for c in chain] + ["empty", "empty"]
            if self.p("default"):
                refs.append("default")
            ls = self.lines(refs)
            if not (r.random() < self.w["default"] * 2) and not any(
                t["n"].lower() in ("config", "config-file") for x in ls for t in x["t"]
            ):
                ls.insert(r.randint(0, len(ls)), {"k": "opt", "t": [{"n": "config-file", "h": True, "v": r.choice(refs)}], "pre": "# edulint: "})
            if same is not None and r.random() < 0.5:
                ls = same
            same = ls
            files.append({"p": fp, "py": fp.endswith(".py"), "lines": ls})
        if not any(f["py"] for f in files):
            files[0] = {"p": "/R/m.py", "py": True, "lines": files[0]["lines"]}
        if self.p("implicit"):
            for ip in r.sample(["/R/edulint.toml", "/R/.edulint.toml", "/R/sub/edulint.toml", "/R/sub/.edulint.toml", "/R/sub/deep/.edulint.toml", "/R/other/edulint.toml"], r.choice([1, 2])):
                cfgs.append(self.cfg(ip, [], self.ref(r.choice(chain), ip) if chain and r.random() < 0.4 else None))
        crefs = [self.ref(c, cwd + "/x") for c in chain] + ["empty"]
        cmd = self.toks(crefs, r.choice([0, 0, 1, 1, 2, 3]))
        args = []
        if k == 1:
            args = [f["p"] for f in files]
        else:
            cand = [f["p"] for f in files if f["py"]]
            if r.random() < 0.5:
                args = ["/R"] if not cfgs or True else cand
            else:
                args = list(dict.fromkeys(r.choice([c, c[: c.rindex("/")]]) for c in cand))
                # no argument inside another one
                args = [a for a in args if not any(b != a and (a + "/").startswith(b + "/") for b in args)]
        return {"cwd": cwd, "cmd": cmd, "files": files, "cfgs": cfgs, "args": args}

    def ref(self, target, frm):
        """a reference to target written in file frm"""
        if target.startswith("http"):
            return target
        if self.r.random() < 0.4 or frm.startswith("http"):
            return target
        import os

        rel = os.path.relpath(target, os.path.dirname(frm))
        if self.r.random() < 0.2:
            rel = "./" + rel
        return rel


def clean(case):
    """what TLC needs of a case"""

    def tok(t):
        return {"n": t["n"], "h": t["h"], "v": t["v"]}

    def val(v):
        if v["t"] == "d":
            return {"t": "d", "d": [{"k": e["k"], "v": val(e["v"])} for e in v["d"]]}
        if v["t"] == "x":
            return {"t": "x"}
        return v

    return {
        "cwd": case["cwd"],
        "cmd": [tok(t) for t in case["cmd"]],
        "args": case["args"],
        "files": [
            {"p": f["p"], "py": f["py"], "lines": [{"k": x["k"], "t": [tok(t) for t in x["t"]]} for x in f["lines"]]}
            for f in case["files"]
        ],
        "cfgs": [
            {"p": c["p"], "ok": c["ok"], "e": [{"k": e["k"], "v": val(e["v"])} for e in c["e"]]}
            for c in case["cfgs"]
        ],
    }
