"""Shared by N01-N03: run histories, let TLC judge them."""
import json

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def run_histories(ctx, kind, module, hists, line):
    """hists: lists of driver operations; line(op, obs) -> record line for the trace spec"""
    obs = ctx.driver("drv_hist", [{"kind": kind, "ops": h} for h in hists], procs=8, timeout=800)
    recs = []
    for h, o in zip(hists, obs):
        recs.append({"lines": [line(op, x) for op, x in zip(h, o["out"])]})
    bad = ctx.judge(module, recs, cfg=CFG, timeout=800)
    for b in bad:
        r = recs[b["i"] - 1]["lines"]
        ln = r[b["line"] - 1]
        key = f"{ln['op']}:{str(ln.get('res'))[:24]}:{ln.get('req')}"
        ctx.violation(
            key,
            f"operation {b['line']} of the history is not allowed: {json.dumps(ln)[:300]}",
            {"history": r[: b["line"]], "ops": hists[b["i"] - 1]},
        )
    ctx.count("histories", len(hists))
    ctx.count("operations", sum(len(h) for h in hists))
    ctx.count("crashes", sum(1 for r in recs for x in r["lines"] if x.get("res") == "crashed"))
    ctx.count("interleaved", sum(1 for r in recs for x in r["lines"] if x["op"] == "par"))
    ctx.sample(recs[0])
    ctx.sample(recs[-1])
    return recs, bad
