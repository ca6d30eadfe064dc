"""Symmetry, element-wise evaluation, and processes with explicit rules."""
from families import *


def pair_queries(g, m, p, q, X, Y):
    """All views of the covariance of two processes, in a random order of access."""
    qs = [
        lambda: g.q_cov(m, p, q, X, Y),
        lambda: g.q_cov(m, q, p, Y, X),
    ]
    n, k = g.nout(p, X), g.nout(q, Y)
    if X["k"] == Y["k"] == "pts" and len(X["x"]) == len(Y["x"]) and g.outs[p] == g.outs[q] and (
        (g.comp[p] is None) == (g.comp[q] is None) and not (g.multi(p) or g.multi(q)) or p == q and not g.multi(p)
    ):
        qs.append(lambda: g.q_elw(m, p, q, X, Y))
        qs.append(lambda: g.q_elw(m, q, p, Y, X))
    if p == q:
        qs.append(lambda: g.q_cov(m, p, p, X, X, onearg=True, single=bool(g.r.getrandbits(1))))
        qs.append(lambda: g.q_elw(m, p, p, X, X, onearg=True))
        if g.ml[p][0] == m:
            qs.append(lambda: g.q_cov(m, p, p, X, Y, own=True))
            qs.append(lambda: g.q_mean(m, p, X, own=True))
    g.r.shuffle(qs)
    for f in qs:
        f()


def rules(g, m, k):
    """Processes added with explicit left and right rules."""
    for _ in range(k):
        ps = [p for p in g.members(m) if g.outs[p] == 1 and g.dim[p] == g.D]
        p, i = g.r.choice(ps), g.r.choice(ps)
        s = g.r.choice(same_home(g, m, ps) or [0])
        lc = g.coef()
        rc = g.r.choice([lc, g.coef()])
        sides = ["left", "right"] + (["left2", "right2"] if s and g.ml[s][0] == m else [])
        g.add(op="rule", m=m, p=p, i=i, s=s or p, lc=lc, rc=rc, X=g.rX(p, 2), Y=g.rX(i, 2),
              side=g.r.choice(sides), form=g.r.choice(["", "kw", "none"]))


def same_home(g, m, ps):
    return [p for p in ps if g.ml[p][0] == m]


def rand(seed):
    g, m = base(seed, D=1 + (seed % 5 == 0), gps=(2, 3))
    cur = m
    for stage in range(g.r.randint(1, 2)):
        for _ in range(g.r.randint(1, 4)):
            t = g.r.random()
            ps = [p for p in g.members(cur) if g.outs[p] == 1]
            if t < 0.35:
                terms = [(g.coef(), g.r.choice(ps)) for _ in range(g.r.randint(1, 2))]
                g.custom(cur, terms, g.rfn(g.D), g.rkern(g.D), g.r.choice([None, "both", "kw"]))
            elif t < 0.5:
                g.copy(cur, g.r.choice(ps))
            elif t < 0.6:
                p = g.r.choice(ps)
                g.cross(p, g.r.choice(same_dim(g, p, ps)))
            else:
                grow(g, cur, 1, prod=0.1, soft=1)
        ps = g.members(cur)
        for _ in range(6):
            p = g.r.choice(ps)
            qs = [q for q in ps if g.dim[q] == g.dim[p] and g.compat(p, q)]
            q = g.r.choice(qs) if g.r.random() < 0.75 else p
            n = g.r.choice([1, 2, 2, 3, 3, 6])
            pair_queries(g, cur, p, q, g.rpoints(n, g.dim[p]), g.rpoints(n, g.dim[q]))
        rules(g, cur, 3)
        for _ in range(3):
            p, q = g.r.choice(ps), g.r.choice(ps)
            if g.dim[q] == g.dim[p] and g.compat(p, q):
                g.q_cov(cur, p, q, g.rX(p, 2), g.rX(q, 2))
        if stage == 0:
            c = [p for p in ps if g.soft[p] < 2]
            kind = g.r.choice(["exact", "exact", "vfe", "fitc", "dtc"])
            us = [g.r.choice([p for p in c if p in g.pd] or c)] if kind != "exact" else None
            m2 = g.rcond(cur, g.robs([g.r.choice(c)], kind=kind, us=us, none=False))
            cur = g.r.choice([m2, m2, cur])
    return g.ev


def run(ctx):
    ctx.validate([rand(ctx.seed * 100000 + i) for i in range(ctx.n(150))], "random programs")
