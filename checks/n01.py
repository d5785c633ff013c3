"""Stored copies of remote configurations."""
import random

from histcheck import run_histories

ASSUMPTIONS = [
    "a crash is the end of the process between two source lines, with unflushed data lost",
    "lack of disk space is a limit on the size of written files",
    "time does not pass and the server does not change during one lookup",
]
URLS = {
    "a": "http://h.example/conf.toml", "b": "http://h.example/conf.toml?x=1", "c": "https://h.example/conf.toml",
    "d": "http://h.example/Conf.toml", "e": "http://h2.example/conf.toml", "f": "http://h.example/d/conf.toml",
}  # fmt: skip


def line(op, o):
    if op["op"] == "par":
        return {"op": "par", "par": [{"url": x["url"], **y} for x, y in zip(op["ops"], o["par"])]}
    d = {k: v for k, v in op.items() if k in ("op", "url", "mode", "tag", "d")}
    if op["op"] == "get":
        d.update(res=o["res"], req=o["req"], space=op.get("space", -1) < 0)
    return d


def par(r, urls):
    io = r.random() < 0.7
    n = len(urls)
    k = r.choice([1, 3, 6] if io else [1, 3, 10, 30])
    sched = [b for _ in range(40) for b in [r.randint(0, n - 1)] * r.randint(1, k)]
    ops = [{"op": "get", "url": u, "io": io} for u in urls]
    if r.random() < 0.4:
        ops[0]["crash"] = r.randint(1, 40 if io else 120)
    return {"op": "par", "ops": ops, "sched": sched}


def stored(r, u, fault, then):
    """histories in which something happens while a stored copy is being replaced"""
    h = [{"op": "srv", "url": u, "mode": "ok", "tag": "1"}]
    if r.random() < 0.7:
        h += [{"op": "get", "url": u}, {"op": "adv", "d": r.choice([300, 301, 5000])}, {"op": "srv", "url": u, "mode": "ok", "tag": "2"}]
    h += fault
    if then:
        h += [{"op": "srv", "url": u, "mode": "down", "tag": ""}, {"op": "get", "url": u}, {"op": "adv", "d": 299}]
    h += [{"op": "get", "url": u}, {"op": "adv", "d": 300}, {"op": "get", "url": u}]
    return h


def run(ctx):
    r = random.Random(ctx.seed * 101)
    ctx.model(
        "RemoteCacheMachine",
        "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS OnlyDelivered Fresh StoredIsDelivered Fallback\n",
        env={"MAXPUB": 2, "MAXOPS": ctx.pick(3, 4)},
        timeout=800,
    )
    m = ctx.model(
        "RemoteCacheHist", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\n", env={"MAXOPS": ctx.pick(5, 6)}, timeout=800
    )
    cases = m.tagged("CASE")
    cases.sort(key=str)
    n = ctx.pick(900, 8000)
    hists = []
    for c in r.sample(cases, min(n, len(cases))):
        ver, h = {}, []
        for o in c:
            if o["op"] == "publish":
                ver[o["u"]] = ver.get(o["u"], 0) + 1
                h.append({"op": "srv", "url": URLS[o["u"]], "mode": "ok", "tag": f"{o['u']}{ver[o['u']]}"})
            elif o["op"] == "down":
                h.append({"op": "srv", "url": URLS[o["u"]], "mode": r.choice(["down", "404", "500", "partial", "timeout"]), "tag": ""})
            elif o["op"] == "adv":
                h.append({"op": "adv", "d": o["d"]})
            else:
                h.append({"op": "get", "url": URLS[o["u"]], **({"crash": r.randint(1, 110)} if o["op"] == "crash" else {})})
        hists.append(h)
    for _ in range(ctx.pick(500, 5000)):
        us = r.sample(sorted(URLS), 3)
        ver, h = 0, []
        for _ in range(r.randint(6, 16)):
            u = URLS[r.choice(us)]
            x = r.random()
            if x < 0.22:
                ver += 1
                h.append({"op": "srv", "url": u, "mode": "ok", "tag": f"{ver}"})
            elif x < 0.30:
                h.append({"op": "srv", "url": u, "mode": r.choice(["down", "404", "500", "503", "partial", "timeout"]), "tag": ""})
            elif x < 0.45:
                h.append({"op": "adv", "d": r.choice([1, 60, 299, 300, 301, 3600, 86400, 719699, 719700, 720000])})
            elif x < 0.55:
                h.append({"op": "get", "url": u, "crash": r.randint(1, 120)})
            elif x < 0.62:
                h.append({"op": "get", "url": u, "space": r.choice([0, 10, 1000, 9000, 16384])})
            elif x < 0.64:
                h.append({"op": "wipe"})
            elif x < 0.74:
                v = u if r.random() < 0.7 else URLS[r.choice(us)]
                h.append(par(r, [u, v]))
            else:
                h.append({"op": "get", "url": u})
        hists.append(h)
    for u in ("a", "b"):
        for then in (False, True):
            for k in range(1, 41):
                hists.append(stored(r, URLS[u], [{"op": "get", "url": URLS[u], "crash": k, "io": True}], then))
            for k in range(1, 130, ctx.pick(3, 1)):
                hists.append(stored(r, URLS[u], [{"op": "get", "url": URLS[u], "crash": k}], then))
    for _ in range(ctx.pick(500, 5000)):
        u = URLS[r.choice("ab")]
        hists.append(stored(r, u, [par(r, [u] * r.choice([2, 3, 3]))], r.random() < 0.4))
    run_histories(ctx, "remote", "RemoteCacheTrace", hists, line)
