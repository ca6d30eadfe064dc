"""A finite-dimensional distribution is the process at the inputs plus noise."""
from families import *

ALL = ["mean", "var", "var_diag", "mean_var", "marginals", "bounds", "dim"]


def model(k):
    """Processes of all kinds."""
    g = Prog(0, 1)
    m = g.measure()
    a = g.gp(m, fn("1", ["1/2"]), {"k": "rq"})
    z = g.gp(m, None, {"k": "rq"}, mform="omit")
    o = g.gp(m, fn("2"), {"k": "const", "c": "2", "num": True})
    s = g.bin("+", a, z)
    w = g.bin("*", a, s)
    h = g.un(s, {"k": "shift", "c": ["1/2"]})
    ob = {"p": s, "X": pts([[F(1, 2)], [1]]), "noise": scal("1/4"), "y": ["1", "-1"], "yform": "vec"}
    m2, t = g.cond(m, {"kind": "exact", "parts": [ob], "us": []}, "two", via=s)
    u = {"p": a, "X": pts([[0], [1]]), "noise": NONE}
    m3, v = g.cond(m2, {"kind": ["vfe", "fitc", "dtc"][k % 3], "parts": [dict(ob, y=["0", "1/2"])], "us": [u]}, "obs", via=t)
    x = g.bin("-", t, g.copy(m2, a))
    c = g.cross(a, w)
    return g, [a, z, o, s, w, h, t, v, x, c], (m, m2, m3)


def noises(n, full):
    V = [F(1, 4), F(1, 2), F(1), F(3, 4), F(2), F(1, 3)][:n]
    M = [[V[i] + 1 if i == j else F(1, 4) for j in range(n)] for i in range(n)]
    out = [NONE, scal("1/2", form="py"), scal("1/4", form="np"), scal("2", form="py", int=True), scal("0", form="py"), nvec(V), nvec(V, form="struct")]
    if n:
        out += [nmat(M), nmat(M, form="struct")]
    return out if full else out[1:2] + out[-2:-1]


def systematic(k):
    g, ps, ms = model(k)
    Xs = [pts([[F(1, 2)]], "scalar"), pts([[F(3, 4)]], "pyfloat"), pts([[2]], "pyint"), pts([[F(1, 2)]], "vec"), pts([[F(1, 2)]]),
          pts([[0], [F(3, 4)], [2]], "vec"), pts([[0], [F(3, 4)], [2]]), pts([], "mat", 1)]
    y = ["1", "-1/2", "3/4", "2", "0", "-1"]
    for p in ps:
        for xi, X in enumerate(Xs):
            n = g.nout(p, X)
            for ni, noise in enumerate(noises(n, True)):
                if (xi + ni) % 4 != k:
                    continue
                asks = list(ALL)
                g.r.shuffle(asks)
                # The density of a constant process needs noise.
                sing = p == ps[2] and (noise["f"] == "none" or noise.get("v") == "0")
                if n and not sing:
                    asks.append({"a": "logpdf", "y": [y[:n]], "scalar": True})
                if n and noise["f"] != "none" and not sing:
                    asks += ["m2", "diagonalise", "entropy"] if n > 1 else ["diagonalise", "entropy"]
                home = [m for m in ms if m in g.ml[p]]
                m = 0 if ni % 2 else g.r.choice(home)
                g.q_fdd(p, X, noise, m, asks, ctor=bool(ni % 3 == 0))
    return g.ev


def rand(seed):
    g, m = base(seed, D=1 + seed % 2, gps=(1, 2))
    grow(g, m, g.r.randint(1, 3), inp=0.3, prod=0.1, soft=1)
    ms = [m]
    for _ in range(g.r.randint(0, 2)):
        m = g.r.choice(ms)
        ps = [p for p in g.members(m) if g.soft[p] < 2]
        kind = g.r.choice(["exact", "vfe", "fitc", "dtc"])
        pd = [p for p in ps if p in g.pd]
        if not pd:
            kind = "exact"
        ms.append(g.rcond(m, g.robs([g.r.choice(ps)], 2, kind=kind, us=[g.r.choice(pd)] if kind != "exact" else None, none=False)))
        grow(g, ms[-1], 1, prod=0.2, soft=1)
    for _ in range(8):
        m = g.r.choice(ms)
        p = g.r.choice(g.members(m))
        X = g.rX(p)
        asks = list(ALL)
        g.r.shuffle(asks)
        g.q_fdd(p, X, g.rnoise(g.nout(p, X)), g.r.choice([0, m]), asks, ctor=g.r.random() < 0.3)
    return g.ev


def run(ctx):
    ctx.validate([systematic(k) for k in range(4)], "all kinds of processes x inputs x noises", exhaustive=True)
    ctx.validate([rand(ctx.seed * 100000 + i) for i in range(ctx.n(120))], "random distributions")
    ctx.validate([large(ctx.seed * 100000 + i, ()) for i in range(ctx.n(24))], "large programs")
