"""Lazy vectors and matrices."""
import random

import tlc

SYMS = ["a", "b", "c", "7", "-3", "0"]


def replay(ctx, rank, depth, bks):
    """Every history the specification has, on the code."""
    from lazyworld import LazyWorld

    r = ctx.mc("MCLazy", env=dict(RANK=str(rank), DEPTH=str(depth), BKS=bks), workers=1,
               label=f"all histories of length {depth} of lazy tensors of rank {rank} ({bks} builders)")
    n = steps = 0
    for m in r.msgs:
        w = LazyWorld()
        h = m["h"]
        n += 1
        for i, s in enumerate(h):
            ev = w.step(s["ev"])
            steps += 1
            got = {k: ev[k] for k in ("err", "val", "calls")}
            want = {k: s[k] for k in ("err", "val", "calls")}
            if s["ev"]["op"] != "get":
                got["val"] = want["val"]
            if got != want:
                ctx.violation({"what": f"step {i} of a history of the specification: {got}, not {want}",
                               "history": [e["ev"] for e in h[: i + 1]]})
                break
    ctx.traces += n
    ctx.events += steps
    ctx.parts.append({"part": f"replayed histories of rank {rank}", "traces": n, "events": steps, "exhaustive": True})
    ctx.sample({"part": "replayed history", "history": r.msgs[len(r.msgs) // 2]["h"]})
    print(f"[{ctx.prop}] replayed {n} histories, {steps} steps", flush=True)


def rand(seed):
    """A long history over several tensors."""
    r = random.Random(seed)
    prog, ranks, doms = [], [], 0

    def key(rank):
        n = 1 if rank == 1 or r.random() < 0.25 else 2
        k = [r.choice(SYMS[:4] if r.random() < 0.8 else SYMS) for _ in range(n)]
        return {"key": k, "form": [r.choice(["obj", "id"]) for _ in k]}

    for _ in range(r.choice([1, 2, 3])):
        ranks.append(r.choice([1, 2, 2]))
        prog.append({"op": "new", "rank": ranks[-1]})
    for _ in range(r.choice([15, 40, 80])):
        t = r.randrange(len(ranks))
        rank = ranks[t]
        u = r.random()
        if u < 0.2:
            kind = "u" if rank == 1 else r.choice("ulr")
            prog.append({"op": "rule", "t": t + 1, "kind": kind, "fix": r.choice(SYMS[:4]) if kind != "u" else "",
                         "dom": r.sample(SYMS, r.randint(0, 4)), "bk": r.choice(["leaf"] * 4 + ["none", "fail", "flaky", "ref"])})
            doms += 1
        elif u < 0.27 and doms:
            prog.append({"op": "grow", "t": t + 1, "tag": r.randint(1, doms), "s": r.choice(SYMS)})
        elif u < 0.37:
            prog.append(dict(key(rank), op="set", t=t + 1, none=r.random() < 0.2))
        else:
            prog.append(dict(key(rank), op="get", t=t + 1))
    return prog


def run(ctx):
    from lazyworld import LazyWorld

    replay(ctx, 1, 5 if not ctx.thorough else 6, "all")
    if ctx.thorough:
        replay(ctx, 2, 4, "all")
    else:
        replay(ctx, 2, 4, "two")
    progs = [rand(ctx.seed * 100000 + i) for i in range(ctx.n(600))]
    traces = [{"ev": LazyWorld().run(p)} for p in progs]
    ctx.judge(traces, "long random histories", progs, judge_kw={"module": "LazyTrace"})
