"""Which covariances are evaluated."""
from families import *

ASKS = ["marginals", "marginals", "bounds", "var_diag", "mean", "var", "logpdf", "entropy", "m2"]
CHEAP = ["mean", "marginals", "bounds", "var_diag"]


def dyadic(ev):
    """Inputs have to be exact in floating point."""
    f = ev.get("f")
    if ev["op"] == "un" and f["k"] == "stretch":
        f["c"] = [c if c in ("2", "1/2", "-2") else "2" for c in f["c"]]


def observe(g, m, soft=1):
    c = [p for p in g.members(m) if g.soft[p] < soft]
    kind = g.r.choice(["exact", "exact", "vfe", "fitc", "dtc"])
    us = [g.r.choice([p for p in c if p in g.pd])] if kind != "exact" else None
    ps = g.r.sample(c, min(len(c), g.r.choice([1, 1, 2])))
    obs = g.robs(ps, g.r.randint(1, 2), nan=g.r.choice([0, 0.15]) if kind == "exact" else 0, kind=kind, us=us, none=False)
    for u in obs["us"]:
        u["noise"] = scal(F(1, 10))
    return obs


def ask(g, m, ps):
    p, q = g.r.choice(ps), g.r.choice(ps)
    t = g.r.random()
    if t < 0.5:
        X = g.rX(p)
        asks = [{"a": a} for a in (g.r.choice(ASKS), g.r.choice(ASKS), g.r.choice(CHEAP), g.r.choice(CHEAP))]
        asks = g.r.choice([asks[:1], asks[:1], asks[:2], asks[2:], asks[2:]])
        for a in asks:
            if a["a"] == "logpdf":
                a.update(y=[g.ry(g.nout(p, X))], scalar=True, yform="col")
        g.q_fdd(p, X, g.rnoise(g.nout(p, X), allow_none=not any(a["a"] in ("logpdf", "entropy") for a in asks)), m, asks=asks)
    elif t < 0.6:
        g.q_mean(m, p, g.rX(p))
    elif t < 0.7:
        g.q_cov(m, p, q, g.rX(p), g.rX(q))
    elif t < 0.85:
        X = g.rX(p)
        g.q_elw(m, p, p, X, X, onearg=True)
    else:
        obs = observe(g, m)
        g.add(op="logpdf" if obs["kind"] == "exact" else "elbo", m=m, obs=obs, form="obs" if obs["kind"] == "exact" else "elbo")


def rand(seed):
    g = Prog(seed, 1 + (seed % 3 == 0))
    m = g.measure()
    for _ in range(g.r.randint(1, 2)):
        g.rgp(m, pd=True)
    grow(g, m, g.r.randint(0, 2), soft=0, prod=0.1)
    if g.r.random() < 0.4:
        p = g.r.choice([p for p in g.members(m) if g.outs[p] == 1])
        g.cross(p, g.r.choice(same_dim(g, p, g.members(m))))
    ms = [m]
    for stage in range(g.r.choice([1, 1, 2])):
        for _ in range(2):
            ask(g, ms[-1], [p for p in g.members(ms[-1]) if g.soft[p] < 1])
        ms.append(g.rcond(g.r.choice(ms), observe(g, ms[-1])))
        if g.r.random() < 0.3:
            grow(g, ms[-1], 1, soft=0)
        for _ in range(4):
            n = g.r.choice(ms[1:])
            ask(g, n, [p for p in g.members(n) if g.soft[p] < 1])
    for ev in g.ev:
        dyadic(ev)
    return g.ev


def many(seed):
    ev = large(seed, ("law", "logpdf") if seed % 3 else ("law", "product"))
    for e in ev:
        dyadic(e)
        if "asks" in e:
            e["asks"] = e["asks"][:2]
    return [e for e in ev if e["op"] not in ("take", "size")]


def run(ctx):
    ctx.validate([many(ctx.seed * 100000 + i) for i in range(ctx.n(24))], "large programs", judge_kw={"module": "EvalsTrace"},
                 world="evalsworld.EvalsWorld")
    ctx.validate([rand(ctx.seed * 100000 + i) for i in range(ctx.n(150))], "random programs", judge_kw={"module": "EvalsTrace"},
                 world="evalsworld.EvalsWorld")
