"""What processes say of themselves is true, and saying it changes nothing."""
import copy

from families import *

CS = [["1/2", "1"], ["-1", "3/2"], ["2", "-1/4"]]


def show(g, p, X=None, noise=None):
    kw = {} if X is None else dict(X=X, noise=noise or NONE)
    g.add(op="show", p=p, **kw)


def stationary(g, p):
    X = g.rX(p, 2)
    g.add(op="stationary", p=p, X=X, c=g.r.choice(CS)[: g.dim[p]])


def claims(seed):
    """Every process of a model and of its posteriors, after every step."""
    g, m = base(seed, 1 + seed % 2, gps=(1, 3), delta=True)
    for i in range(g.r.randint(2, 6)):
        t = g.r.random()
        if t < 0.75:
            grow(g, m, 1, ar=0.35, inp=0.35, prod=0.1)
        elif t < 0.9:
            ok = [p for p in g.members(m) if g.outs[p] == 1 and g.soft[p] < 2]
            via = [p for p in ok if g.ml[p][0] == m]
            m, _ = g.rcond(m, g.robs([g.r.choice(ok)], 2), g.r.choice(via)) if via else (g.rcond(m, g.robs([g.r.choice(ok)], 2)), 0)
            g.rgp(m, delta=True)
        else:
            ok = [p for p in g.members(m)]
            p = g.r.choice(ok)
            qs = [q for q in ok if g.ml[q][0] == g.ml[p][0] and g.dim[q] == g.dim[p]]
            g.cross(p, g.r.choice(qs))
        for p in range(1, g.np + 1):
            stationary(g, p)
            if g.r.random() < 0.3:
                show(g, p)
    return g.ev


def silent(seed):
    """Text is asked for between, before and after all other steps."""
    g, m = base(seed, 1, gps=(1, 2), pd=True)
    kept, n = [], 0
    for _ in range(g.r.randint(4, 8)):
        ps = g.members(m)
        for p in g.r.sample(ps, min(2, len(ps))):
            if g.r.random() < 0.7:
                n += 1
                show(g, p)
            if g.r.random() < 0.6:   # A distribution that is shown before it is asked anything.
                n += 1
                X = g.rX(p, 2)
                d = dict(p=p, X=X, noise=g.rnoise(g.nout(p, X)), ref=n)
                g.add(op="show", **d)
                kept.append(d)
        if kept and g.r.random() < 0.6:
            d = g.r.choice(kept)
            g.add(op="fdd", m=0, asks=[{"a": a} for a in g.r.sample(["mean", "var", "var_diag", "marginals", "mean_var"], 3)], **d)
            g.add(op="show", **d)
        t = g.r.random()
        if t < 0.6:
            grow(g, m, 1, prod=0.15, soft=1)
        elif t < 0.8:
            ok = [p for p in ps if g.outs[p] == 1 and g.soft[p] < 2]
            m = g.rcond(m, g.robs([g.r.choice(ok)], 2))
        else:
            g.rgp(m, pd=True)
        p, q = g.r.choice(g.members(m)), g.r.choice(g.members(m))
        if g.r.random() < 0.5:
            g.q_cov(m, p, q, g.rX(p, 1), g.rX(q, 2))
        g.add(op="members", m=m)
    for d in kept:
        g.add(op="fdd", m=0, asks=[{"a": "mean"}, {"a": "var"}], **copy.deepcopy(d))
    g.all_laws(m, limit=10)
    return g.ev


def forms(seed):
    """Numbers are shown in the format asked for."""
    g = Prog(seed, 1)
    m = g.measure()
    for c in ("2", "1/2", "-3/2"):
        a = g.gp(m, fn(c), {"k": "rq"})
        g.add(op="show", p=a, number=True)
        b = g.gp(m, None, {"k": "scale", "c": c.lstrip("-"), "of": {"k": "rq"}})
        g.add(op="show", p=b, number=True)
        s = g.gp(m, g.rfn(1), {"k": "stretch", "c": [c], "of": {"k": "rq"}})
        g.add(op="show", p=s, number=True)
        for p in (a, b, s):
            q = g.un(p, {"k": g.r.choice(["p*c", "c*p"]), "c": "3/4"})
            g.add(op="show", p=q, number=True)
            g.add(op="show", p=g.un(q, {"k": "stretch", "c": ["3"]}), number=True)
            stationary(g, q)
        g.add(op="show", p=g.bin("+", a, b), number=True)
        g.add(op="show", p=g.cross(a, b), number=True)
    return g.ev


def run(ctx):
    ctx.validate([forms(ctx.seed * 1000 + i) for i in range(ctx.n(10))], "text of processes with numbers in them")
    ctx.validate([claims(ctx.seed * 100000 + i) for i in range(ctx.n(150))], "stationarity of every process after every step")
    ctx.validate([silent(ctx.seed * 100000 + i) for i in range(ctx.n(150))], "text asked for between other steps")
