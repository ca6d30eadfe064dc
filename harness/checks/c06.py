"""Conditioning in stages, jointly, in groups or in any order."""
import itertools

import mclaw
from families import *


def path(g, m, parts, groups, copies=None):
    """Condition measure m on groups of observations, one group at a time; chain of logpdfs."""
    cur = m
    for grp in groups:
        obs = {"kind": "exact", "parts": [dict(parts[i]) for i in grp], "us": []}
        g.add(op="logpdf", m=cur, obs=obs, form=g.r.choice(["obs", "pairs"]))
        form, dot = g.rform(obs)
        cur = g.cond(cur, obs, form, None, dot)
    return cur


def through_posterior(g, m, parts):
    """Every further stage is stated through the posterior versions of the processes."""
    cur, ver = m, {}
    for part in parts:
        d = dict(part)
        d["p"] = ver.get(part["p"], part["p"])
        if g.ml[d["p"]][0] != cur and cur != m:
            d["p"] = g.copy(cur, d["p"])
            ver[part["p"]] = d["p"]
        obs = {"kind": "exact", "parts": [d], "us": []}
        form, dot = g.rform(obs)
        if g.r.random() < 0.5 and g.ml[d["p"]][0] == cur:
            cur, q = g.cond(cur, obs, form, d["p"], dot)
            ver[part["p"]] = q
        else:
            cur = g.cond(cur, obs, form, None, dot)
    return cur


def groupings(n, r, k):
    out = [[list(range(n))], [[i] for i in range(n)], [[i] for i in reversed(range(n))], [list(reversed(range(n)))]]
    for _ in range(k):
        p = list(range(n))
        r.shuffle(p)
        cuts = sorted(r.sample(range(1, n), r.randint(1, n - 1))) if n > 1 else []
        out.append([p[i:j] for i, j in zip([0] + cuts, cuts + [n])])
    return out


def rand(seed, nan=0.0, deep=False):
    g, m = base(seed, D=1 + (seed % 5 == 0), gps=(2, 3), pd=True)
    grow(g, m, g.r.randint(1, 3), prod=0.05, soft=1)
    if seed % 4 == 1:
        p = g.r.choice(g.members(m))
        g.cross(p, g.r.choice(same_dim(g, p, g.members(m))))
    ps = g.members(m)
    n = g.r.choice([2, 2, 2, 3, 3, 4 if deep else 3])
    c = [p for p in ps if g.soft[p] < 2]
    first = g.r.choice(c)
    obsd = [first] + [g.r.choice([q for q in c if g.compat(q, first)]) for _ in range(n - 1)]
    obsd = [p for p in obsd if all(g.compat(p, q) for q in obsd)]
    n = len(obsd)
    parts = [g.rpart(p, g.r.choice([1, 1, 2]), nan, none=False) for p in obsd]
    ends = [path(g, m, parts, gr) for gr in groupings(n, g.r, 1)]
    if all(g.outs[p] == 1 for p in obsd):
        ends.append(through_posterior(g, m, parts))
    new = None
    pairs = [(g.r.choice(ps), g.r.choice(ps)) for _ in range(3)]
    pairs = [(p, q) for p, q in pairs if g.compat(p, q)]
    for p, q in pairs:
        X, Y = g.rX(p, 2), g.rX(q, 2)
        for e in ends:
            g.q_mean(e, p, X)
            g.q_cov(e, p, q, X, Y)
    # Compositions made after conditioning.
    p = g.r.choice([p for p in c if g.outs[p] == 1])
    new = g.bin("+", p, g.r.choice([q for q in same_dim(g, p, c) if g.outs[q] == 1]))
    X = g.rX(new, 2)
    for e in ends:
        g.q_fdd(new, X, g.rnoise(2), e, ["mean", "var"])
    return g.ev


def orders():
    """Every ordering and every grouping of three observations."""
    progs = []
    for k, perm in enumerate(itertools.permutations(range(3))):
        g = Prog(k, 1)
        m = g.measure()
        a = g.gp(m, fn("1"), {"k": "rq"})
        b = g.gp(m, fn("0", ["1/2"]), {"k": "stretch", "c": ["2"], "of": {"k": "rq"}})
        s = g.bin("-", a, b)
        u = g.un(s, {"k": "p*f", "f": fn("1", ["1"])})
        parts = [
            {"p": a, "X": pts([[0]], "vec"), "noise": scal("1/4"), "y": ["1"], "yform": "vec"},
            {"p": u, "X": pts([[F(1, 2)], [1]]), "noise": nmat([["1/2", "1/4"], ["1/4", "1"]]), "y": ["-1", "1/2"], "yform": "vec"},
            {"p": s, "X": pts([[-1]], "vec"), "noise": nvec(["1/2"]), "y": ["2"], "yform": "vec"},
        ]
        ends = [path(g, m, parts, gr) for gr in (
            [list(perm)], [[perm[0]], list(perm[1:])], [list(perm[:2]), [perm[2]]], [[i] for i in perm])]
        ends.append(through_posterior(g, m, [parts[i] for i in perm]))
        X, Y = pts([[F(1, 4)], [2]]), pts([[F(-1, 2)]])
        for e in ends:
            for p in (a, b, s, u):
                g.q_mean(e, p, X)
                g.q_cov(e, p, a, X, Y)
        progs.append(g.ev)
    return progs


def run(ctx):
    mclaw.check(ctx, "stages", P=3, M=3)
    ctx.validate(orders(), "every order and grouping of three observations", exhaustive=True)
    ctx.validate([rand(ctx.seed * 100000 + i, deep=ctx.thorough) for i in range(ctx.n(40))], "random observations in stages")
    ctx.validate([rand(ctx.seed * 100000 + 50000 + i, 0.2) for i in range(ctx.n(10))], "random observations with missing data")
