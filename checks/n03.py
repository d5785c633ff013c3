"""Downloading explanations and showing them."""
import random

from histcheck import run_histories

ASSUMPTIONS = [
    "a crash is the end of the process between two source lines, with unflushed data lost",
    "the record of attempts (a dbm file) may be lost or unusable after a crash or simultaneous use",
]


def norm(op, o):
    return {"op": op["op"], "off": bool(op.get("off")), "upd": bool(op.get("upd")), "res": o["res"], "req": o["req"]}


def line(op, o):
    if op["op"] == "par":
        return {"op": "par", "par": [norm(x, y) for x, y in zip(op["ops"], o["par"])]}
    if op["op"] in ("update", "explain"):
        return norm(op, o)
    return {k: v for k, v in op.items() if k in ("op", "mode", "v", "d")}


def run(ctx):
    r = random.Random(ctx.seed * 53)
    ctx.model(
        "ExplanationsMachine",
        "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Complete ShowsStored\nPROPERTY FailedChangesNothing\n",
        env={"MAXOPS": ctx.pick(5, 7)},
        timeout=850,
    )
    ver = [0]

    def srv(ok=0.65):
        if r.random() < ok:
            ver[0] += 1
            return {"op": "srv", "mode": "ok", "v": str(ver[0])}
        return {"op": "srv", "mode": r.choice(["down", "garbage", "404", "500", "partial", "timeout"]), "v": "0"}

    def op(**kw):
        x = r.random()
        if x < 0.45:
            return {"op": "update", **({"off": True} if r.random() < 0.1 else {}), **kw}
        if x < 0.6:
            return {"op": "explain", "upd": True, **kw}
        return {"op": "explain", **kw}

    def par(n):
        io = r.random() < 0.75
        k = r.choice([1, 3, 6] if io else [1, 3, 10, 30])
        ops = [op(io=io) for _ in range(n)]
        if r.random() < 0.3:
            ops[0]["crash"] = r.randint(1, 30 if io else 60)
        return {"op": "par", "ops": ops, "sched": [b for _ in range(40) for b in [r.randint(0, n - 1)] * r.randint(1, k)]}

    hists = []
    for _ in range(ctx.pick(600, 6000)):
        h = [srv(0.8)]
        for _ in range(r.randint(4, 14)):
            x = r.random()
            if x < 0.2:
                h.append(srv())
            elif x < 0.4:
                h.append({"op": "adv", "d": r.choice([1, 300, 599, 600, 601, 3000, 100000])})
            elif x < 0.5:
                h.append(op(crash=r.randint(1, 60)))
            elif x < 0.52:
                h.append({"op": "wipe"})
            elif x < 0.60:
                h.append(par(r.choice([2, 2, 3])))
            else:
                h.append(op())
        hists.append(h)
    for k in range(1, 50):
        for io in (False, True):
            for old in (False, True):
                h = [{"op": "srv", "mode": "ok", "v": "1"}]
                if old:
                    h += [{"op": "update"}, {"op": "adv", "d": 700}, {"op": "srv", "mode": "ok", "v": "2"}]
                h += [{"op": "update", "crash": k, "io": io}, {"op": "explain"}, {"op": "adv", "d": 600}, {"op": "update"}, {"op": "explain"}]
                hists.append(h)
    run_histories(ctx, "expl", "ExplanationsTrace", hists, line)
