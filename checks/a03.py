"""Names are attributed to the scopes Python binds them in."""
import json
import random
from pathlib import Path

from gen_scopes import ScopeGen
from gen_prog import Gen
from vkit import CheckError, VERIF

MACHINE = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS OwnersBind ClassesHide OwnBindings NonlocalsAreFunctions Emit\n"


def canon(xs):
    return sorted(json.dumps(x, sort_keys=True) for x in xs)


def judge(ctx, jobs, what, expected=None):
    obs = ctx.driver("drv_bind", jobs, procs=8, timeout=ctx.pick(500, 3600))
    kept = []
    for n, (j, o) in enumerate(zip(jobs, obs)):
        if o["skip"]:
            ctx.count("skipped " + o["skip"])
            continue
        if o["raised"]:
            ctx.violation("raised", f"{what} {j.get('name', '')}: the analysis raised {o['raised']}", {"job": j, "text": o["text"]})
            continue
        kept.append((j, o))
        if expected is not None:
            # functions and classes have names as well, which the model leaves out
            r, e = o["rec"], expected[n]
            if [canon(x for x in r["os"] if x["name"] in "xy"), canon(r["ss"]), canon(r["ds"])] != [canon(e[k]) for k in ("os", "ss", "ds")]:
                raise CheckError(f"the model and the translation disagree about {o['text']!r}: {r} {e}")
        if o["extra"]:
            ctx.violation(
                "invented", f"{what}: events {o['extra'][:3]} of no occurrence of a name", {"job": j, "extra": o["extra"], "text": o["text"]}
            )
    recs = [
        {**o["rec"], "groups": [{k: g[k] for k in ("occs", "seen", "python")} for g in o["rec"]["groups"]]} for _, o in kept
    ]
    bads = ctx.judge("BindTrace", recs, tag="BAD")
    spec = ctx.last.tagged("SPEC")
    if spec:
        j, o = kept[spec[0]["i"] - 1]
        raise CheckError(f"Bind.tla differs from Python: {o['text']} {[o['rec']['groups'][k - 1] for k in spec[0]['fails']]}")
    for bad in bads:
        j, o = kept[bad["i"] - 1]
        g = [o["rec"]["groups"][k - 1] for k in sorted(bad["fails"])]
        ctx.violation(
            f"{what} {g[0]['key'][2]}",
            f"{what} {j.get('name', '')}: " + "; ".join(f"{x['key'][2]} of {x['key'][0]} on line {x['key'][1]} attributed to {x['seen'] or 'nothing'}" for x in g[:3]),
            {"job": j, "text": o["text"] or j.get("text"), "groups": g, "scopes": o["rec"]["ss"]},
        )
    ctx.count("programs", len(kept))
    ctx.count("names_attributed", sum(len(r["os"]) for r in recs))
    if kept:
        ctx.sample({what: kept[len(kept) // 2][1]["text"] or str(kept[len(kept) // 2][0])[:300]})


def run(ctx):
    cases = []
    for names, toks in ctx.pick([(1, 4), (2, 3)], [(1, 5), (2, 4)]):
        cases += ctx.model("BindMachine", MACHINE, env={"NAMES": names, "MAXTOK": toks}).tagged("CASE")
    if len(cases) < 3000:
        raise CheckError("too few programs")
    judge(ctx, [{"toks": c["toks"]} for c in cases], "scopes", cases)
    rnd = random.Random(ctx.seed)
    # longer ones, drawn at random
    judge(ctx, [{"toks": ScopeGen(rnd).tokens(rnd.randint(6, 14))} for _ in range(ctx.pick(6000, 60000))], "random scopes")
    judge(ctx, [{"text": ScopeGen(rnd).program(), "name": f"p{i}"} for i in range(ctx.pick(1500, 15000))], "program")
    snippets = json.loads((VERIF / "corpus/snippets.json").read_text())
    jobs = [{"text": v, "name": k} for k, v in sorted(snippets.items())]
    jobs += [{"text": Gen(ctx.seed * 1000003 + i, depth=rnd.choice([1, 2, 3])).program(rnd.choice([1, 2, 3])), "name": f"g{i}"} for i in range(ctx.pick(800, 6000))]
    judge(ctx, jobs, "code")
    if not ctx.quick:
        lib = sorted(p for p in Path("/usr/lib/python3.12").rglob("*.py") if 200 < p.stat().st_size < 12000)
        jobs = []
        for p in rnd.sample(lib, min(250, len(lib))):
            try:
                jobs.append({"text": p.read_text("utf8"), "name": str(p)})
            except UnicodeDecodeError:
                pass
        judge(ctx, jobs, "library module")
