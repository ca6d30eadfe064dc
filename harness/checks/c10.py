"""Names and processes of a measure form a two-way dictionary."""
import specprogs
from families import *

NAMES = ["a", "ab", "b", "A"]


def rand(seed):
    """Long histories of naming over several measures and posteriors."""
    g = Prog(seed, 1)
    g.measure()
    for _ in range(g.r.randint(10, 25)):
        t = g.r.random()
        ms = range(1, g.nm + 1)
        ps = range(1, g.np + 1)
        nm = g.r.choice(NAMES)
        if t < 0.06 and g.nm < 5:
            g.measure()
        elif t < 0.3 or not ps:
            if g.np < 9:
                g.gp(g.r.choice(ms), fn(), {"k": "rq"}, g.r.choice(["", nm, nm]))
        elif t < 0.38 and g.nm < 6:
            p = g.r.choice(ps)
            g.cond(g.r.choice(g.ml[p]), {"kind": "exact", "parts": [g.rpart(p, 1, none=False)], "us": []}, "two")
        elif t < 0.44:
            p = g.r.choice(ps)
            g.copy(g.r.choice(g.ml[p]), p)
        elif t < 0.5:
            p = g.r.choice(ps)
            g.un(p, {"k": "-p"})
        elif t < 0.55:
            p, q = g.r.choice(ps), g.r.choice(ps)
            g.bin("+", p, q)
        elif t < 0.75:
            g.name(g.r.choice(ps), nm)
        else:
            p = g.r.choice(ps)
            g.mname(g.r.choice(g.ml[p]), p, nm)
        for m in range(1, g.nm + 1):
            for n in NAMES + ["nope"]:
                g.add(op="getgp", m=m, name=n)
            for p in range(1, g.np + 1):
                g.add(op="getname", m=m, p=p)
        for p in range(1, g.np + 1):
            g.add(op="gpname", p=p)
        if g.r.random() < 0.3:
            for m in range(1, g.nm + 1):
                g.add(op="members", m=m)
    return g.ev


def run(ctx):
    hs = specprogs.generate(ctx, "names", 2, 2, 0)
    if ctx.thorough:
        hs += specprogs.generate(ctx, "names", 2, 3, 0, limit=60000)
    else:
        hs = hs[:: 1]
    ctx.validate([specprogs.program(h, specprogs.ask_names) for h in hs], "every transition of the specification", exhaustive=True)
    ctx.validate([rand(ctx.seed * 100000 + i) for i in range(ctx.n(120))], "long random histories")
