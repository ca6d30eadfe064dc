"""Products of processes are moment matched, in every measure."""
from families import *


def prod(g, m):
    c = [p for p in g.members(m) if g.soft[p] < 1 and g.outs[p] == 1]
    p = g.r.choice(c)
    return g.bin("*", p, g.r.choice(same_dim(g, p, c)))


def systematic():
    """Products of all pairs of a small collection of correlated processes."""
    progs = []
    X, Y = pts([[-1], [F(1, 2)]], "vec"), pts([[F(1, 4)], [F(1, 2)], [0]])
    for mean_a, mean_b in [(fn(), fn()), (fn("2"), fn("0", ["1"])), (fn("0", ["1"]), fn("-1", ["1/2"], "1/4"))]:
        g = Prog(0, 1)
        m = g.measure()
        a = g.gp(m, mean_a, {"k": "rq"})
        b = g.gp(m, mean_b, {"k": "sum", "l": {"k": "rq"}, "r": {"k": "lin"}})
        c = g.bin("+", a, b)
        d = g.un(b, {"k": "shift", "c": ["1/2"]})
        ps = [a, b, c, d]
        prods = {(p, q): g.bin("*", p, q) for p in ps for q in ps}
        for (p, q), r in prods.items():
            g.q_mean(m, r, X)
            g.q_cov(m, r, r, X, Y)
            for s in ps:
                g.q_cov(m, r, s, X, Y)
                g.q_cov(m, s, r, Y, X)
        for r in [(a, b), (b, a), (a, a), (c, d)]:
            for s in [(b, a), (a, c), (c, c)]:
                g.q_cov(m, prods[r], prods[s], X, Y)
        progs.append(g.ev)
    return progs


def cubes():
    """Products of products, products of derived processes."""
    progs = []
    X, Y = pts([[-1], [F(1, 2)]], "vec"), pts([[F(1, 4)], [F(1, 2)], [0]])
    g = Prog(0, 1)
    m = g.measure()
    a = g.gp(m, fn("1"), {"k": "rq"})
    b = g.gp(m, fn("0", ["1/2"]), {"k": "rq"})
    p = g.bin("*", a, b)
    q = g.bin("*", p, a)
    r = g.bin("*", p, p)
    s = g.bin("*", a, q)
    u = g.bin("-", p, g.un(a, {"k": "p*f", "f": fn("1", ["1"])}))
    v = g.bin("*", u, b)
    g.all_laws(m, X=X, Y=Y)
    progs.append(g.ev)
    return progs


def rand(seed):
    g, m = base(seed, D=1 + (seed % 3 == 0), gps=(1, 2))
    grow(g, m, g.r.randint(0, 2), soft=1)
    for _ in range(g.r.randint(1, 2)):
        prod(g, m)
    grow(g, m, g.r.randint(0, 2), soft=1)
    g.all_laws(m, limit=10)
    return g.ev


def post(seed):
    """Products made before and after conditioning, in prior and posterior."""
    g, m = base(seed, D=1, gps=(1, 2))
    grow(g, m, g.r.randint(0, 2), soft=1)
    if g.r.random() < 0.7:
        prod(g, m)
    cur = m
    for _ in range(g.r.randint(1, 2)):
        ps = [p for p in g.members(cur) if g.soft[p] < 2]
        kind = g.r.choice(["exact", "exact", "vfe", "fitc", "dtc"])
        us = [g.r.choice([p for p in g.members(cur) if p in g.pd] or ps)] if kind != "exact" else None
        via = None
        p = g.r.choice(ps)
        if g.ml[p][0] == cur and g.r.random() < 0.3:
            via = p
        r = g.rcond(cur, g.robs([p], none=False, kind=kind, us=us), via)
        cur = r[0] if via else r
        prod(g, cur)
        grow(g, cur, g.r.randint(0, 1), soft=1)
    for n in {m, cur}:
        g.all_laws(n, limit=8)
    p = g.r.choice(g.members(cur))
    g.q_fdd(p, g.rX(p, 2), NONE, cur, ["mean", "var", "var_diag"])
    return g.ev


def run(ctx):
    ctx.validate(systematic() + cubes(), "products of all pairs of correlated processes", exhaustive=True)
    ctx.validate([rand(ctx.seed * 100000 + i) for i in range(ctx.n(70))], "random products")
    ctx.validate([post(ctx.seed * 100000 + i) for i in range(ctx.n(90))], "random products around conditioning")
