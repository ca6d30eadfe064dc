"""Processes combine only within a measure, and results live where operands do."""
import specprogs
from families import *


def illegal(g):
    """A call that no state accepts."""
    ms, ps = range(1, g.nm + 1), range(1, g.np + 1)
    p, m = g.r.choice(ps), g.r.choice(ms)
    out = [q for q in ps if m not in g.ml[q]]
    X = pts([[F(1, 2)], [1]], "vec")
    ways = [dict(what="unattached"), dict(what="unattached_mean"), dict(what="normal", p=p),
            dict(what="add_other", p=p), dict(what="mul_other", p=p), dict(what="obs_shape", p=p, X=X)]
    if out:
        q = g.r.choice(out)
        ways += 2 * [dict(what="foreign_mean", m=m, p=q), dict(what="foreign_kernel", m=m, p=q),
                     dict(what="foreign_fdd", m=m, p=q, X=X), dict(what="foreign_logpdf", m=m, p=q, X=X, y=["1", "2"]),
                     dict(what="foreign_sample", m=m, p=q, X=X)]
        qs = [q for q in out if g.outs[q] == 1 and g.dim[q] == 1]
        if qs:
            qs = [g.r.choice(qs)] + [p for p in g.r.choices(ps, k=g.r.choice([1, 2, 2])) if g.outs[p] == 1 and g.dim[p] == 1]
            g.r.shuffle(qs)
            ways += 2 * [dict(what="foreign_joint", m=m, ps=qs, X=X, y=["1", "2"], ask=g.r.choice(["logpdf", "sample"]))]
        inn = [p for p in g.members(m) if g.outs[p] == 1 and g.dim[p] == 1]
        if inn and g.outs[q] == 1:
            ways += 2 * [dict(what="foreign_cond", m=m, p=q, q=g.r.choice(inn), X=X, y=["1", "2"], ask=g.r.choice(["mean", "kernel"]))]
    other = [q for q in ps if g.ml[q][0] != g.ml[p][0]]
    if other:
        # One or more operands of other homes, at any position.
        qs = [g.r.choice(other)] + g.r.choices([p, p, g.r.choice(ps)], k=g.r.choice([0, 1, 1, 2]))
        qs.append(p)
        g.r.shuffle(qs)
        one = [q for q in qs if g.outs[q] == 1 and g.dim[q] == 1]
        ways += 2 * [dict(what="joint", ps=qs)]
        if len({g.ml[q][0] for q in one}) > 1:
            ways.append(dict(what="joint_obs", ps=one, X=X, y=["1", "2"]))
    g.add(op="illegal", **g.r.choice(ways))


def rand(seed):
    """Measures, posteriors of posteriors, and combinations of old and new processes."""
    g = Prog(seed, 1)
    m = g.measure()
    for _ in range(g.r.randint(1, 2)):
        g.gp(m, fn("0", ["1"]), {"k": "rq"})
    n = g.r.randint(9, 16)
    for _ in range(n):
        ps = list(range(1, g.np + 1))
        t = g.r.random()
        if t < 0.28 and g.nm < 7:
            p = g.r.choice(ps)
            cand = g.ml[p]
            m = g.r.choice(cand)
            c = [q for q in ps if g.soft[q] < 1 and m in g.ml[q] and g.outs[q] == 1]
            if c:
                via = g.r.choice([None, None] + [q for q in c if g.ml[q][0] == m])
                obs = {"kind": "exact", "parts": [g.rpart(g.r.choice(c), 1, none=False)], "us": []}
                g.rcond(m, obs, via)
        elif t < 0.34 and g.nm < 7:
            g.measure()
        elif t < 0.46 and g.np < 12:
            g.gp(g.r.choice(range(1, g.nm + 1)), fn(), {"k": "rq"})
        elif t < 0.52:
            p = g.r.choice(ps)
            g.copy(g.r.choice(range(1, g.nm + 1)), p)
        elif t < 0.6:
            g.un(g.r.choice(ps), g.r.choice([{"k": "-p"}, {"k": "shift", "c": ["1/2"]}, {"k": "p*c", "c": "2"}, {"k": "p+c", "c": "1"}]))
        elif t < 0.85:
            p = g.r.choice(ps)
            q = g.r.choice(ps if g.r.random() < 0.35 else [q for q in ps if g.ml[q][0] == g.ml[p][0]])
            k = g.r.choice("+-*")
            if k == "*" and (g.soft[p] + g.soft[q] or g.outs[p] > 1 or g.outs[q] > 1):
                k = "+"
            if g.outs[p] == g.outs[q] == 1:
                g.bin(k, p, q)
        elif t < 0.93:
            p = g.r.choice(ps)
            q = g.r.choice(ps if g.r.random() < 0.3 else [q for q in ps if g.ml[q][0] == g.ml[p][0]])
            more = g.r.choices(ps if g.r.random() < 0.3 else [q for q in ps if g.ml[q][0] == g.ml[p][0]], k=g.r.choice([0, 0, 1, 2]))
            g.cross(p, *more, q)
        illegal(g)
        g.ev += specprogs.ask_members(g.np, g.nm)
    for _ in range(6):
        m = g.r.choice(range(1, g.nm + 1))
        c = [p for p in g.members(m) if g.outs[p] == 1]
        if c:
            p, q = g.r.choice(c), g.r.choice(c)
            g.q_mean(m, p, g.rX(p, 1))
            g.q_cov(m, p, q, g.rX(p, 1), g.rX(q, 1))
    return g.ev


def run(ctx):
    hs = specprogs.generate(ctx, "members", 3, 2, 0)
    hs += specprogs.generate(ctx, "members", 3, 3, 0, limit=None if ctx.thorough else 700, seed=ctx.seed)
    hs += specprogs.generate(ctx, "foreign", 4, 2, 0, limit=None if ctx.thorough else 500, seed=ctx.seed)
    if ctx.thorough:
        hs += specprogs.generate(ctx, "members", 4, 3, 0, limit=20000, workers=8)
    ctx.validate([specprogs.program(h, specprogs.ask_laws) for h in hs], "every transition of the specification", exhaustive=True)
    ctx.validate([rand(ctx.seed * 100000 + i) for i in range(ctx.n(120))], "long random histories")
