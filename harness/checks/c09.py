"""The default measure is exactly the innermost context still open."""
import specprogs
from families import *


def rand(seed):
    g = Prog(seed, 1)
    g.measure()
    for _ in range(g.r.randint(8, 20)):
        t = g.r.random()
        ms = range(1, g.nm + 1)
        ps = range(1, g.np + 1)
        if t < 0.05 and g.nm < 5:
            g.measure()
        elif t < 0.3 or not ps:
            g.gp(g.r.choice([0, 0, 0] + list(ms)), fn(), {"k": "rq"}, g.r.choice(["", "", "a", "b"]), mform=g.r.choice(["omit", None]))
        elif t < 0.55 and len(g.stk) < 5:
            g.enter(g.r.choice(ms))
        elif t < 0.75 and g.stk:
            g.exit(g.r.random() < 0.4)
        elif t < 0.8 and g.nm < 7:
            p = g.r.choice(ps)
            g.rcond(g.r.choice(g.ml[p]), g.robs([p], 1, none=False))
        elif t < 0.9:
            g.bin(g.r.choice("+-*") if max(g.soft[p] for p in ps) < 1 else "+", g.r.choice(ps), g.r.choice(ps))
        elif t < 0.95:
            p = g.r.choice(ps)
            g.q_fdd(p, g.rX(p, 1), NONE, g.r.choice([0] + g.ml[p]), ["mean", "var"])
        else:
            p = g.r.choice(ps)
            g.copy(g.r.choice(g.ml[p]), p)
        g.ev += specprogs.ask_context(g.np, g.nm)
    while g.stk:
        g.exit(g.r.random() < 0.4)
        g.ev += specprogs.ask_context(g.np, g.nm)
    g.gp(0)
    g.ev += specprogs.ask_context(g.np, g.nm)
    return g.ev


def run(ctx):
    hs = specprogs.generate(ctx, "context", 2, 3, 2) + specprogs.generate(ctx, "context", 1, 2, 4)
    if ctx.thorough:
        hs += specprogs.generate(ctx, "context", 3, 3, 3, workers=8)
    ctx.validate([specprogs.program(h, specprogs.ask_context, last=99) for h in hs], "every transition of the specification", exhaustive=True)
    ctx.validate([rand(ctx.seed * 100000 + i) for i in range(ctx.n(150))], "long random histories")
