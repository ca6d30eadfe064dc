"""Programs that TLC generated from the specification, and what to ask along the way."""
import random

import tlc

HALF = {"k": "pts", "x": [["1/4"], ["1"]], "form": "vec", "D": 1}


def generate(ctx, alphabet, P, M, S, limit=None, timeout=800, workers=1, seed=0):
    """One program for every transition of the explored state graph."""
    r = ctx.mc("MCStheno", env=dict(ALPHABET=alphabet, MAXP=str(P), MAXM=str(M), MAXS=str(S)), workers=workers,
               timeout=timeout, label=f"all histories over '{alphabet}' ({P} processes, {M} measures, {S} blocks)")
    progs = [m["h"] for m in r.msgs]
    rnd = random.Random(seed)
    if limit and len(progs) > limit:
        progs = rnd.sample(progs, limit)
    return progs


def program(h, observe, last=1):
    """Events of a history with questions after its last few operations."""
    ev = []
    for i, s in enumerate(h):
        e = dict(s["ev"])
        if not s["ok"]:
            e["expect_err"] = True
        ev.append(e)
        if i >= len(h) - last:
            ev += observe(s["np"], s["nm"])
    return ev


def ask_names(np, nm):
    q = []
    for m in range(1, nm + 1):
        q += [dict(op="getgp", m=m, name=n) for n in ("a", "ab", "z")]
        q += [dict(op="getname", m=m, p=p) for p in range(1, np + 1)]
        q.append(dict(op="members", m=m))
    q += [dict(op="gpname", p=p) for p in range(1, np + 1)]
    return q


def ask_members(np, nm):
    q = [dict(op="members", m=m) for m in range(1, nm + 1)]
    q += [dict(op="home", p=p) for p in range(1, np + 1)]
    return q


def ask_laws(np, nm):
    q = ask_members(np, nm)
    for m in range(1, nm + 1):
        for p in range(1, np + 1):
            q.append(dict(op="mean", m=m, p=p, X=HALF))
            q += [dict(op="cov", m=m, p=p, q=r, X=HALF, Y=HALF) for r in range(1, np + 1)]
    return q


def ask_context(np, nm):
    return [dict(op="default")] + ask_members(np, nm)
