"""Log-densities are exact and agree across all ways to ask."""
import itertools

from families import *


def obs(parts, ref=None):
    o = {"kind": "exact", "parts": [dict(p) for p in parts], "us": []}
    if ref:
        o["ref"] = ref
    return o


def systematic():
    """All call forms, orders of observations, and measures."""
    progs = []
    mat = nmat([["1", "1/4"], ["1/4", "1/2"]])
    for k, noise in enumerate([NONE, scal("1/2", form="py"), nvec(["1/4", "1/2"]), nvec(["1/4", "1/2"], form="struct"), mat]):
        g = Prog(0, 1)
        m = g.measure()
        a = g.gp(m, fn("1", ["1/2"]), {"k": "rq"})
        b = g.gp(m, fn("-1"), {"k": "stretch", "c": ["2"], "of": {"k": "rq"}})
        s = g.bin("+", a, b)
        f = g.un(a, {"k": "p*f", "f": fn("1", ["1"])})
        other = {"p": f, "X": pts([[F(1, 4)], [-1]], "vec"), "noise": scal("1/4"), "y": ["1", "0"], "yform": "vec"}
        m2 = g.cond(m, obs([other]), "two")
        u = {"p": a, "X": pts([[0], [1]]), "noise": NONE}
        m3 = g.cond(m2, {"kind": "vfe", "parts": [dict(other, p=s)], "us": [u]}, "obs")
        w = g.bin("-", s, f)
        t = g.copy(m2, b)
        parts = [
            {"p": s, "X": pts([[0], [F(3, 4)]], "vec"), "noise": noise, "y": ["1", "-1/2"], "yform": "vec"},
            {"p": w, "X": pts([[F(1, 2)]], ["scalar", "vec", "mat"][k % 3]), "noise": scal("1/4"), "y": ["2"], "yform": ["scalar", "vec", "col"][k % 3]},
            {"p": b, "X": pts([[-2], [2]]), "noise": mat, "y": ["0", "1"], "yform": "col"},
        ]
        for mm in (m, m2, m3):
            for i in range(3):
                for form in ("two", "pairs", "obs", "fdd"):
                    g.add(op="logpdf", m=mm, obs=obs([parts[i]]), form=form)
            for n in (2, 3):
                for perm in itertools.permutations(range(3), n):
                    for form in ("pairs", "obs"):
                        g.add(op="logpdf", m=mm, obs=obs([parts[i] for i in perm], f"{perm}"), form=form)
        g.add(op="logpdf", m=m2, obs=obs([dict(parts[2], p=t)]), form="two")
        g.add(op="logpdf", m=m2, obs=obs([dict(parts[2], p=t), dict(parts[2], p=t, X=pts([[0], [1]], "vec"))]), form="pairs")
        progs.append(g.ev)
    return progs


def columns():
    """Several columns of data."""
    g = Prog(0, 1)
    m = g.measure()
    a = g.gp(m, fn("1", ["1/2"]), {"k": "rq"})
    b = g.gp(m, fn("-1"), {"k": "stretch", "c": ["2"], "of": {"k": "rq"}})
    s = g.bin("+", a, b)
    m2 = g.cond(m, obs([{"p": s, "X": pts([[0], [1]]), "noise": scal("1/4"), "y": ["1", "0"], "yform": "vec"}]), "two")
    for p in (a, s):
        for X, n in ((pts([[0], [F(3, 4)], [2]], "vec"), 3), (pts([[F(1, 2)]], "vec"), 1), (pts([[0], [1]]), 2)):
            for noise in (NONE, scal("1/2", form="py"), nvec(["1/4", "1/2", "1"][:n])):
                for mm in (0, m2):
                    for c in (1, 2, 3, 4):
                        y = [[rs(F((3 * i + 5 * j) % 7 - 3, 2)) for i in range(n)] for j in range(c)]
                        g.q_fdd(p, X, noise, mm, [{"a": "logpdf", "y": y, "scalar": c == 1, "yform": yf} for yf in (["vec", "col"] if c == 1 else ["col"])])
    return g.ev


def rand(seed):
    g, m = base(seed, D=1 + (seed % 4 == 0), gps=(2, 3), pd=True)
    grow(g, m, g.r.randint(1, 3), prod=0.1, soft=1)
    if seed % 4 == 1:
        p = g.r.choice(g.members(m))
        g.cross(p, g.r.choice(same_dim(g, p, g.members(m))))
    ms = [m]
    for i in range(3):
        m = g.r.choice(ms)
        ps = [p for p in g.members(m) if g.soft[p] < 2]
        for _ in range(2):
            o = g.robs([g.r.choice(ps) for _ in range(g.r.choice([1, 1, 2, 3]))], g.r.choice([1, 2]), none=False)
            one = len(o["parts"]) == 1
            for mm in ms:
                if all(mm in g.ml[d["p"]] for d in o["parts"]) and len({g.ml[d["p"]][0] for d in o["parts"]}) == 1:
                    sh = dict(o, parts=g.r.sample(o["parts"], len(o["parts"])))
                    g.add(op="logpdf", m=mm, obs=sh, form=g.r.choice(["obs", "pairs"] + (["two", "fdd"] if one else [])))
        kind = g.r.choice(["exact", "exact", "vfe", "fitc", "dtc"])
        pd = [p for p in ps if p in g.pd]
        if i < 2 and pd:
            o = g.robs([g.r.choice([p for p in ps if g.outs[p] == 1])], 2, kind=kind, us=[g.r.choice(pd)] if kind != "exact" else None, none=False)
            ms.append(g.rcond(m, o))
            grow(g, ms[-1], 1)
    return g.ev


def run(ctx):
    ctx.validate(systematic() + [columns()], "all call forms, orders and measures", exhaustive=True)
    ctx.validate([rand(ctx.seed * 100000 + i) for i in range(ctx.n(120))], "random observations")
    ctx.validate([large(ctx.seed * 100000 + i, ("law", "logpdf")) for i in range(ctx.n(24))], "large programs")
