"""Looking for newer versions."""
import random

from histcheck import run_histories

ASSUMPTIONS = [
    "a crash is the end of the process between two source lines, with unflushed data lost",
    "time does not pass and the index does not change during one lookup",
]
VERS = ["0.9", "4.2.9", "4.3.0rc1", "4.3.0", "4.3.1.dev1", "4.3.1", "4.3.1.post1", "4.3.2a1", "4.3.2", "4.3.10", "4.10.0rc2", "4.10.0", "5.0.0.dev3", "5.0"]
FAULTY = ["down", "timeout", "garbage", "partial"]


def line(op, o):
    if op["op"] == "par":
        return {"op": "par", "par": [{"op": x["op"], "ttl": x["ttl"], "pkg": x["pkg"], **y} for x, y in zip(op["ops"], o["par"])]}
    d = {k: v for k, v in op.items() if k in ("op", "mode", "d", "ttl", "pkg")}
    if op["op"] == "srv":
        d["rels"] = [{"v": v, "builds": len(b), "yanked": any(x["yanked"] for x in b)} for v, b in op["releases"].items()]
    if op["op"] in ("check", "latest", "waiting"):
        d.update(res=o["res"], req=o["req"])
    return d


def run(ctx):
    r = random.Random(ctx.seed * 77)
    ctx.model(
        "VersionsMachine",
        "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS OnlyReal AnnouncedIsNewer\nPROPERTIES AskedOnce OthersKept\n",
        env={"MAXOPS": ctx.pick(2, 3)},
        timeout=850,
    )

    def srv():
        if r.random() < 0.3:
            return {"op": "srv", "mode": r.choice(FAULTY), "releases": {}}
        vs = r.sample(VERS, r.randint(1, 6))
        if r.random() < 0.4:
            vs = sorted(vs)
        rel = {}
        for v in vs:
            rel[v] = [{"yanked": r.random() < 0.15} for _ in range(r.choice([0, 1, 1, 1, 2]))]
        if r.random() < 0.15:
            rel[r.choice(["not-a-version", "2004d-x"])] = [{"yanked": False}]
        return {"op": "srv", "mode": "ok", "releases": rel}

    def look(**kw):
        o = r.choice(["check", "check", "latest", "waiting"])
        return {"op": o, "pkg": "edulint" if o == "check" or r.random() < 0.6 else "other", "ttl": 600 if o == "check" else r.choice([600, 600, 60, 3600]), **kw}

    def par(n):
        io = r.random() < 0.75
        k = r.choice([1, 3, 6] if io else [1, 3, 10, 30])
        ops = [look(io=io) for _ in range(n)]
        if r.random() < 0.3:
            ops[0]["crash"] = r.randint(1, 40 if io else 120)
        return {"op": "par", "ops": ops, "sched": [b for _ in range(40) for b in [r.randint(0, n - 1)] * r.randint(1, k)]}

    hists = []
    for _ in range(ctx.pick(900, 9000)):
        h = [srv()]
        for _ in range(r.randint(4, 14)):
            x = r.random()
            if x < 0.2:
                h.append(srv())
            elif x < 0.45:
                h.append({"op": "adv", "d": r.choice([1, 59, 60, 61, 599, 600, 601, 3000, 3600, 100000])})
            elif x < 0.53:
                h.append(look(crash=r.randint(1, 90)))
            elif x < 0.56:
                h.append({"op": "damage", "text": r.choice(["", "{", "[]", "null", '{"edulint": {"version": "9.9', "\u0000", "3"])})
            elif x < 0.58:
                h.append({"op": "wipe"})
            elif x < 0.64:
                h.append(par(2))
            else:
                h.append(look())
        hists.append(h)
    for k in range(1, ctx.pick(90, 160)):
        for io in (False, True):
            if io and k > 45:
                continue
            h = [{"op": "srv", "mode": "ok", "releases": {"4.3.2": [{"yanked": False}]}}]
            if k % 2:
                h += [look(), {"op": "adv", "d": 4000}, srv()]
            h += [look(crash=k, io=io), {"op": "adv", "d": r.choice([0, 59, 600])}, look(), {"op": "adv", "d": 3600}, look()]
            hists.append(h)
    run_histories(ctx, "version", "VersionsTrace", hists, line)
