"""Conditioning gives the exact Gaussian conditional."""
from families import *


def obs1(p, X, noise, y, yform="vec", **kw):
    return {"kind": "exact", "parts": [{"p": p, "X": X, "noise": noise, "y": y, "yform": yform}], "us": [], **kw}


def forms():
    """All documented call forms x all noise forms x all forms of the data."""
    progs = []
    X3 = pts([[-1], [F(1, 2)], [1]], "vec")
    M3 = pts([[-1], [F(1, 2)], [1]], "mat")
    S = pts([[F(1, 2)]], "scalar")
    noises = [NONE, scal("1/2", form="py"), scal("1/4", form="np"), scal("1", form="py", int=True),
              nvec(["1/4", "1/2", "1"]), nvec(["1/4", "1/2", "1"], form="struct"),
              nmat([["1", "1/4", "0"], ["1/4", "1/2", "1/8"], ["0", "1/8", "3/4"]]),
              nmat([["1", "1/4", "0"], ["1/4", "1/2", "1/8"], ["0", "1/8", "3/4"]], form="struct")]
    y3 = ["1", "-1/2", "3/4"]
    Xq, Yq = pts([[0], [F(3, 4)]]), pts([[F(-1, 2)], [2]], "vec")
    for noise in noises:
        g = Prog(0, 1)
        m = g.measure()
        a = g.gp(m, fn("1", ["1/2"]), {"k": "rq"})
        b = g.gp(m, fn("-1"), {"k": "stretch", "c": ["2"], "of": {"k": "rq"}})
        s = g.bin("+", a, b)
        i = 0
        for form in ("obs", "two", "pair"):
            for via in (None, a):
                for dot in (False, True):
                    X = [X3, M3][i % 2]
                    yf = ["vec", "col"][(i // 2) % 2]
                    i += 1
                    r = g.cond(m, obs1(s, X, noise, y3, yf), form, via, dot)
                    m2 = r[0] if via else r
                    for p in (a, b, s):
                        g.q_mean(m2, p, Xq)
                    g.q_cov(m2, a, b, Xq, Yq)
                    g.q_cov(m2, s, s, Xq, Yq)
                    if via:
                        g.q_mean(m2, r[1], Xq)
                        g.q_cov(m2, r[1], b, Xq, Yq)
                        g.q_fdd(r[1], Xq, scal("1/4"), 0, ["mean", "var"])
        progs.append(g.ev)
    # A scalar input with a scalar or a vector of data; several observations.
    for X in (S, pts([[F(1, 2)]], "pyfloat"), pts([[1]], "pyint"), pts([[F(1, 2)]], "vec"), pts([[F(1, 2)]])):
        g = Prog(0, 1)
        m = g.measure()
        a = g.gp(m, fn("1", ["1/2"]), {"k": "rq"})
        b = g.gp(m, fn("-1"), {"k": "stretch", "c": ["2"], "of": {"k": "rq"}})
        s = g.bin("+", a, b)
        for noise in (NONE, scal("1/2", form="py")):
            for form, yf in (("two", "scalar"), ("pair", "vec"), ("obs", "col"), ("obs", "scalar")):
                if yf == "scalar" and X["form"] not in ("scalar", "pyfloat", "pyint"):
                    continue
                m2 = g.cond(m, obs1(s, X, noise, ["3/4"], yf), form)
                g.q_mean(m2, a, Xq)
                g.q_cov(m2, a, s, Xq, Yq)
            for form in ("obs", "pairs"):
                for dot in (False, True):
                    for ps in ((a, s), (s, b, a), (a, a)):
                        o = {"kind": "exact", "us": [], "parts": [
                            {"p": p, "X": [X, X3, M3][k] if (p, k) != (a, 1) else X3, "noise": [noise, noises[6], noises[4]][k],
                             "y": [["1/2"], y3, y3][k], "yform": "vec"} for k, p in enumerate(ps)]}
                        m2 = g.cond(m, o, form, None, dot)
                        g.q_mean(m2, b, Xq)
                        g.q_cov(m2, a, s, Xq, Yq)
        progs.append(g.ev)
    # Nothing observed.
    g = Prog(0, 1)
    m = g.measure()
    a = g.gp(m, fn("1", ["1/2"]), {"k": "rq"})
    b = g.gp(m, fn("-1"), {"k": "rq"})
    s = g.bin("+", a, b)
    for X in (pts([], "mat", 1),):
        for noise in (NONE, scal("1/2"), nvec([])):
            for form in ("two", "pair", "obs"):
                m2 = g.cond(m, obs1(s, X, noise, []), form)
                for p in (a, s):
                    g.q_mean(m2, p, Xq)
                    g.q_cov(m2, p, b, Xq, Yq)
                r = g.un(s, {"k": "c*p", "c": "2"})
                g.q_cov(m2, r, b, Xq, Yq)
    progs.append(g.ev)
    # Several observations, some of which are of nothing.
    E = pts([], "mat", 1)
    for sizes in ((0, 3), (3, 0), (0, 0), (0, 3, 1), (3, 0, 1), (1, 3, 0), (0, 0, 3), (0, 3, 0)):
        g = Prog(0, 1)
        m = g.measure()
        a = g.gp(m, fn("1", ["1/2"]), {"k": "rq"})
        b = g.gp(m, fn("-1"), {"k": "stretch", "c": ["2"], "of": {"k": "rq"}})
        s = g.bin("+", a, b)
        for ps in ((a, s, b), (s, s, a)):
            for form in ("obs", "pairs"):
                parts = [{"p": p, "X": {0: E, 1: pts([[F(1, 4)]]), 3: M3}[n], "noise": [scal("1/4"), nvec(["1/2"] * n)][j % 2],
                          "y": y3[:n], "yform": "vec"} for j, (p, n) in enumerate(zip(ps, sizes))]
                m2 = g.cond(m, {"kind": "exact", "parts": parts, "us": []}, form)
                g.q_mean(m2, b, Xq)
                g.q_cov(m2, a, s, Xq, Yq)
                if any(sizes):
                    g.add(op="logpdf", m=m, obs={"kind": "exact", "parts": parts, "us": []}, form="obs")
        progs.append(g.ev)
    # Values that are not one vector are rejected.
    g = Prog(0, 1)
    m = g.measure()
    a = g.gp(m, fn("1", ["1/2"]), {"k": "rq"})
    b = g.gp(m, fn("-1"), {"k": "rq"})
    s = g.bin("+", a, b)
    m2 = g.cond(m, obs1(s, X3, scal("1/4"), y3), "two")
    for mm in (m, m2):
        for X in (X3, M3, pts([[1]]), pts([[1]], "vec")):
            n = len(X["x"])
            for rows, cols in ((1, 3), (n, 2), (n, 3), (1, 2)):
                for form in ("obs", "two", "vfe", "fitc", "dtc"):
                    g.add(op="illegal", what="values", m=mm, p=s, q=a, X=X, rows=rows, cols=cols, form=form)
    g.q_cov(m2, a, s, Xq, Yq)
    progs.append(g.ev)
    return progs


def rand(seed, kinds=("exact",), stages=2):
    g, m = base(seed, D=1 + (seed % 4 == 0), gps=(1, 3))
    grow(g, m, g.r.randint(1, 3), prod=0.05, soft=1)
    cur = m
    for _ in range(g.r.randint(1, stages)):
        ps = [p for p in g.members(cur) if g.soft[p] < 2]
        ps = [g.r.choice(ps) for _ in range(g.r.choice([1, 1, 2, 3]))]
        ps = [p for p in ps if g.ml[p][0] == g.ml[ps[0]][0]]
        kind = g.r.choice(kinds)
        us = None
        if kind != "exact":
            us = [g.r.choice([p for p in g.members(cur) if p in g.pd] or g.members(cur))]
        via = None
        cand = [p for p in g.members(cur) if g.ml[p][0] == cur]
        if cand and g.r.random() < 0.35:
            via = g.r.choice(cand)
        r = g.rcond(cur, g.robs(ps, kind=kind, us=us), via)
        cur = r[0] if via else r
        grow(g, cur, g.r.randint(0, 2), prod=0.1, soft=1)
        if g.r.random() < 0.3:
            g.rgp(cur)
        g.all_laws(cur, limit=8)
    p = g.r.choice(g.members(cur))
    X = g.rX(p)
    g.q_fdd(p, X, g.rnoise(g.nout(p, X)), cur, ["mean", "var", "marginals"])
    return g.ev


def run(ctx):
    ctx.validate(forms(), "all call forms, noise forms and data forms", exhaustive=True)
    ctx.validate([rand(ctx.seed * 100000 + i) for i in range(ctx.n(160))], "random programs with exact conditioning")
    ctx.validate([large(ctx.seed * 100000 + i) for i in range(ctx.n(24))], "large programs")
