"""Families of random programs, shared by the checks."""
from fractions import Fraction as F

import gen
from gen import rs  # noqa: F401
from gen import NONE, Prog, fddx, fn, nmat, nvec, pts, scal, tup


def pick(g, ps, **kw):
    return g.r.choice(ps)


def same_dim(g, p, ps):
    return [q for q in ps if g.dim[q] == g.dim[p] and g.outs[q] == g.outs[p] and g.ml[q][0] == g.ml[p][0]]


def no_cancel(g, p, qs):
    """Multi-output processes whose sum or difference with p cannot be identically zero (a recorded finding)."""
    if not g.multi(p):
        return qs
    mine = {x for x in g.anc(p) if g.multi(x)}
    return [q for q in qs if not mine & g.anc(q)]


def grow(g, m, n, ar=0.5, inp=0.2, prod=0.0, soft=2):
    """Add n random compositions of the processes of measure m."""
    for _ in range(n):
        ps = g.members(m)
        t = g.r.random()
        p = g.r.choice(ps)
        if t < ar:
            g.rarith(p)
        elif t < ar + inp:
            g.rinput(p)
        elif t < ar + inp + prod:
            cand = [q for q in ps if g.soft[q] < soft and g.outs[q] == 1]
            if cand:
                p = g.r.choice(cand)
                g.bin("*", p, g.r.choice(same_dim(g, p, cand)))
        else:
            qs = no_cancel(g, p, same_dim(g, p, ps))
            if qs:
                g.bin(g.r.choice("+-"), p, g.r.choice(qs))


def base(seed, D=1, gps=(1, 3), consts=True, **kw):
    """consts: constant kernels, which the matrix library supports in part only."""
    g = Prog(seed, D)
    g.consts = consts
    m = g.measure()
    for _ in range(g.r.randint(*gps)):
        g.rgp(m, **kw)
    return g, m


def wide(g, p, n):
    """Many points, in no order, that are not too close."""
    g.r.shuffle(vs := [F(i, 2) for i in range(-8, 9)])
    rows = [[vs[i % 17]] + [F(g.r.randint(-4, 4), 2) for _ in range(g.dim[p] - 1)] for i in range(n)]
    return pts(rows, g.r.choice(["vec", "mat"]) if g.dim[p] == 1 else "mat", D=g.dim[p])


def parts_of(g, ps, ns, diag=False, nan=0.0):
    return [g.rpart(p, nan=nan, diag=diag, none=False, X=wide(g, p, n)) for p, n in zip(ps, ns)]


def large(seed, what=("law",), kind="exact", nan=0.0):
    """Many points, many observations, many processes: what small instances cannot show."""
    g, m = base(seed, 1 + (seed % 5 == 4), gps=(2, 3), pd=True, consts=False)
    grow(g, m, 3, ar=0.5, inp=0.2)
    ps = [p for p in g.members(m) if g.soft[p] == 0]
    many = [g.r.choice(ps) for _ in range(g.r.randint(4, 6))]
    c = 0
    if seed % 3 == 0 or "product" in what:
        c = g.cross(*[p for p in many if g.dim[p] == g.dim[many[0]]])
    diag = kind != "exact"
    if seed % 2:
        parts = parts_of(g, many, [g.r.choice([1, 2, 2, 3]) for _ in many], diag, nan)
    elif c and nan == 0:
        parts = parts_of(g, [c], [g.r.choice([2, 3])], diag)
    else:
        parts = parts_of(g, [g.r.choice(ps)], [g.r.randint(7, 12)], diag, nan)
    us = [{"p": p, "X": wide(g, p, g.r.choice([1, 2, 3])), "noise": scal("1/10")} for p in many[: g.r.randint(3, 5)]] if diag else []
    obs = {"kind": kind, "parts": parts, "us": us, "ref": 1}
    if "elbo" in what:
        g.add(op="elbo", m=m, obs=obs, form=g.r.choice(["elbo", "logpdf"]))
    if "logpdf" in what:
        g.add(op="logpdf", m=m, obs=obs, form=g.r.choice(["obs", "pairs"]) if len(parts) > 1 else g.r.choice(["obs", "two", "fdd"]))
    ms = [m]
    if "law" in what:
        m = g.cond(m, obs, "obs")
        ms.append(m)
        if g.r.random() < 0.4:  # A chain of small stages.
            for _ in range(g.r.randint(2, 3)):
                m = g.rcond(m, g.robs([g.r.choice(ps)], 1, none=False, again=0))
            ms.append(m)
    for m in ms[-2:]:
        for p in g.r.sample(ps, 2):
            g.q_mean(m, p, wide(g, p, 7))
            q = g.r.choice(ps)
            g.q_cov(m, p, q, wide(g, p, g.r.randint(5, 7)), wide(g, q, g.r.randint(1, 6)))
        p = g.r.choice(ps + [c] * (3 if c else 0)) or ps[0]
        X = wide(g, p, g.r.randint(4, 8) if p != c else 2)
        n = g.nout(p, X)
        asks = ["mean", "var", "var_diag", "marginals", {"a": "logpdf", "y": [g.ry(n)], "scalar": True, "yform": "col"}]
        g.q_fdd(p, X, g.rnoise(n, allow_none=False), m, g.r.sample(asks, 3))
        if "product" in what and c:
            X = tup(*[fddx(p, wide(g, p, g.r.randint(1, 3))) for p in g.r.sample(many, 3)])
            n = g.nout(c, X)
            g.q_mean(m, c, X)
            g.q_fdd(c, X, g.rnoise(n), m, ["mean", "var_diag"])
            g.add(op="size", m=m, p=c, X=X)
            g.add(op="take", m=0, p=c, X=X, noise=g.rnoise(n), mask=[g.r.randint(0, 1) for _ in range(n)], asks=[{"a": "mean"}, {"a": "var"}])
        if "sample" in what:
            ds = [{"p": p, "X": wide(g, p, g.r.randint(1, 3)), "noise": scal("1/4")} for p in many]
            k = sum(g.nout(e["p"], e["X"]) for e in ds)
            g.q_sample(ds, g.r.choice([3, 40000]), m=m, seed=seed, ws=[[g.coef() for _ in range(k)]])
    return g.ev
