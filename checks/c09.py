"""Translations change only the texts of the messages they name."""
import json
import random

from cfgcheck import random_cases

ASSUMPTIONS = [
    "messages defined twice with different templates under one code are left out",
    "translations use positional fields without conversions and format specifications",
]
CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
ARGS = ["x", "", " pad ", "foo_bar", "'a'", "before", "after", "3", "a b", "x.y(1)", "if", "n > 0", "[1, 2]", "$", "a\nb", "\\d", ")("]
TOKS = ["{}", "{}", "{0}", "{1}", "{2}", "{{", "}}", "{", "}", "text", " ", "{x}", "%s", "\\1", "{7}"]
CODE = '''
import os
import sys as sys, math
def F(l, O):
    sum = 1
    if l:
        pass
        return True
    else:
        return False
    if l == None or O == True:
        x = x + 1
def g(list):
    for i in range(len(list)):
        print(list[i])
    for i in range(3):
        list.append(i); print("a", i)
    if list:
        print(1)
        print("same")
    else:
        print(2)
        print("same")
    a = 1
    a = a + 2
    while True:
        a = a * 3
        if ord("a") == 97 and a == 97:
            break
    return not (a > 3)
def h():
    global G
    G = "%s %d" % (1,)
    return type(G) == type("")
'''
IDS = ["F401", "E401", "E702", "W0622", "redefined-builtin", "R6609", "use-augmented-assign", "R1703", "no-else-return",
       "R1705", "R6101", "C0325", "E711", "E712", "E741", "F507", "R6401", "no-global-variables", "R6802", "identical-if-branches-part",
       "R6614", "magical-constant-in-ord-compare", "C0104", "disallowed-name", "W0107", "unnecessary-pass", "C0103", "invalid-name",
       "R1714", "E0001", "unused-import", "no-such-message", "R6305", "use-enumerate", "W0611", "F841", "E501", "C0411", "R6201"]  # fmt: skip


def fill(parts, args):
    return parts[0] + "".join(a + p for a, p in zip(args, parts[1:]))


HOLE = r"%(?:\(\w+\))?#?\d*[A-Za-z]"


def run(ctx):
    import re

    r = random.Random(ctx.seed * 31 + 5)
    (tmpls,) = ctx.driver("drv_translate", [{"k": "templates"}])
    ctx.notes["templates"] = len(tmpls)

    # every translation within bounds
    m = ctx.model(
        "TranslateMachine",
        "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS MachineIsOperators NeverPartly Emit\n",
        env={"MAXTOK": ctx.pick(3, 4)},
    )
    cases = m.tagged("CASE")
    code3 = next(c for c, (t, s) in sorted(tmpls.items()) if len(re.findall(HOLE, t)) == 3 and t.count("%") == 3)
    jobs = []
    for c in cases:
        t = tmpls[code3][0]
        parts = re.split(HOLE, t)
        jobs.append({"k": "direct", "id": code3, "code": code3, "tmpl": t, "text": fill(parts, ["p", "q w", "7"]), "t": c["t"], "ex": []})

    # every message of the bundled checkers
    for code, (t, sym) in sorted(tmpls.items()):
        parts = [p.replace("%%", "%") for p in re.split(HOLE, t)]
        for _ in range(ctx.pick(4, 40)):
            args = [r.choice(ARGS) for _ in parts[1:]]
            text = fill(parts, args) if r.random() < 0.95 else "Something else " + r.choice(ARGS)
            ex = []
            for _ in range(r.choice([0, 0, 1, 2])):
                n = r.randint(1, max(1, len(args)))
                fr = args[n - 1] if args and r.random() < 0.8 else r.choice(ARGS)
                if not any(e["n"] == n and e["from"] == fr for e in ex):
                    ex.append({"n": n, "from": fr, "to": "<" + r.choice(ARGS[:12]) + ">"})
            x = r.random()
            if x < 0.4:
                tr = " ".join("{}" for _ in args) + "!"
            elif x < 0.7:
                o = list(range(len(args)))
                r.shuffle(o)
                tr = "/".join("{%d}" % k for k in o) + "."
            else:
                tr = "".join(r.choice(TOKS) for _ in range(r.randint(1, 5)))
            id_ = sym if sym and r.random() < 0.5 else code
            jobs.append({"k": "direct", "id": id_, "code": code, "tmpl": t, "text": text, "t": tr, "ex": ex})
    obs = ctx.driver("drv_translate", jobs, procs=8)
    recs = [{**j, "got": "", **o} for j, o in zip(jobs, obs)]

    # whole checks
    cj, cl = [], []
    for n in range(ctx.pick(60, 500)):
        files, langs, args = {}, [], []
        tables = []
        for k in range(3):
            ids = r.sample(IDS, r.randint(1, 12))
            lang = []
            for i in ids:
                tr = r.choice(["T:{}", "{0} - {1}", "{1}{0}", "plain", "{}{}{}", "{{}}", "{", "{} is {}"])
                ex = []
                if r.random() < 0.4:
                    ex.append({"n": r.choice([1, 2]), "from": r.choice(["before", "after", "l", "sum", "list", "os"]), "to": "<T>"})
                lang.append({"id": i, "t": f"{k}{tr}", "ex": ex})
            tables.append(lang)

        def toml(lang):
            s = "".join(f"{e['id']} = {json.dumps(e['t'])}\n" for e in lang)
            for e in lang:
                for x in e["ex"]:
                    s += f"translated_extracts.{e['id']}.{x['n']} = {{ {x['from']} = {json.dumps(x['to'])} }}\n"
            return s

        conf = "[pylint]\nenable = ['all']\n[flake8]\nextend-select = ['A','B','C','E','F','W']\n"
        files["l0.toml"] = toml(tables[0])
        files["sub/l1.toml"] = toml(tables[1])
        files["c.toml"] = conf + "[language-translations]\n" + toml(tables[2])
        files["n.toml"] = conf
        optlang = r.random() < 0.15
        for k in range(r.choice([1, 2, 3])):
            sub = r.choice(["", "", "sub/"])
            name = f"{sub}f{k}.py"
            up = "../" if sub else ""
            head, lang = [], []
            c = r.choice(["n", "n", "c", "none"])
            if c != "none":
                head.append(f"# edulint: config-file={up or './'}{c}.toml")
            if c == "c":
                lang = tables[2]
            lf = r.choice([0, 1, None, None])
            if lf is not None:
                head.append("# edulint: language-file=" + (f"{up}l0.toml" if lf == 0 else ("l1.toml" if sub else "sub/l1.toml")))
            if optlang:
                lf = 1
            if lf is not None:
                lang = tables[lf] + [e for e in lang if all(e["id"] != x["id"] for x in tables[lf])]
            files[name] = "\n".join(head) + "\n" * (3 - len(head)) + CODE
            args.append(name)
            langs.append({"file": name, "lang": lang})
        j = {"k": "check", "files": files, "args": args, "opts": []}
        if optlang:
            j["optlang"] = True
        cj.append(j)
        cl.append(langs)
    for j in cj:
        if j.pop("optlang", False):
            j["files"]["l.toml"] = j["files"]["sub/l1.toml"]
            j["rootopt"] = "l.toml"
    cobs = ctx.driver("drv_translate", cj, procs=8)
    tl = [{"code": c, "t": t} for c, (t, s) in sorted(tmpls.items())]
    for j, o, langs in zip(cj, cobs, cl):
        used = {p["code"] for p in o.get("base", [])}
        recs.append({"k": "check", "langs": langs, "tmpls": [x for x in tl if x["code"] in used], **o})
        ctx.count("problems_compared", len(o.get("base", [])))
        ctx.count("problems_translated", sum(a["text"] != b["text"] for a, b in zip(o.get("base", []), o.get("got", []))))
    bad = ctx.judge("TranslateTrace", recs, cfg=CFG, timeout=800)
    alljobs = jobs + cj
    for b in bad:
        rec = recs[b["i"] - 1]
        ctx.violation(
            rec["k"] + ":" + "+".join(sorted(b["fails"]))[:60] + (rec.get("code", "")),
            f"{sorted(b['fails'])}: " + json.dumps({k: rec.get(k) for k in ("code", "text", "t", "got", "ex", "err")} if rec["k"] == "direct" else rec.get("err"))[:600],
            {"fails": b["fails"], "job": alljobs[b["i"] - 1], "record": rec},
        )
    ctx.sample({k: v for k, v in recs[len(cases)].items()})
    ctx.count("messages_translated", len(jobs))
    # which translations a file has
    random_cases(ctx, ctx.pick(250, 2500), ["lang"], files=5, malformed=0, badtype=0, lang=0.4, groups=0.05, pylint=0.05)
