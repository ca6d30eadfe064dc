"""Lazily specified normals."""
from checks.c21 import ask, replay, validate
from gennormal import NProg


def rand(seed):
    """Long histories over several lazily built normals and what is made of them."""
    g = NProg(seed)
    n = g.r.choice([1, 2, 3])
    for _ in range(g.r.randint(1, 3)):
        g.rnew(n, lazy=0.9)
    for _ in range(g.r.randint(6, 16)):
        t = g.r.random()
        a, b = g.r.randint(1, len(g.dims)), g.r.randint(1, len(g.dims))
        if t < 0.12:
            g.rarith(a)
        elif t < 0.17 and g.dims[a - 1] == g.dims[b - 1]:
            g.pair(g.r.choice(["kl", "w2"]) if g.dims[a - 1] < 3 else "kl", a, b)
        elif t < 0.2:
            g.sample(a, g.r.choice([1, 3]))
        else:
            g.ask(a)
    for a in range(1, len(g.dims) + 1):
        g.ask(a, g.r.choice(["mean_var", "marginals"]))
    return g.ev


def run(ctx):
    r = ctx.mc("MCNormal", env=dict(DEPTH="4" if ctx.thorough else "3"), label="all histories of queries of a lazily built normal")
    replay(ctx, "histories of the specification", r.msgs, 60000 if ctx.thorough else 3500,
           lambda h: [ask(1, a) for a in ("marginals", "mean_var", "var_diag", "mean")])
    validate(ctx, [rand(ctx.seed * 100000 + i) for i in range(ctx.n(500))], "long random histories")
