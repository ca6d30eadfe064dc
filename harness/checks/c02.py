"""Input transforms."""
from families import *

QUAD = {"k": "quad", "a": "1/2", "b": "1", "c": "-1/2"}
T1 = [
    {"k": "shift", "c": ["1/2"]}, {"k": "shift", "c": ["-3/4"]}, {"k": "shift", "c": ["3/4"], "arr": True},
    {"k": "stretch", "c": ["2"]}, {"k": "stretch", "c": ["-1/2"]}, {"k": "stretch", "c": ["3/2"], "arr": True},
    {"k": "select", "dims": [1], "D": 1},
    {"k": "warp", "f": QUAD},
]
T2 = [
    {"k": "shift", "c": ["1/2"]}, {"k": "shift", "c": ["1/2", "-1"], "arr": True},
    {"k": "stretch", "c": ["2"]}, {"k": "stretch", "c": ["2", "-1/2"], "arr": True},
    {"k": "select", "dims": [2, 1], "D": 2}, {"k": "select", "dims": [1, 1], "D": 2}, {"k": "select", "dims": [2, 2], "D": 2},
    {"k": "warp", "f": QUAD}, {"k": "warp", "f": {"k": "rev"}},
]


def systematic(D):
    """Every transform of every transform, with another process and with the original."""
    T = T1 if D == 1 else T2
    X = pts([[-1], [F(1, 2)]], "vec") if D == 1 else pts([[-1, F(1, 2)], [F(3, 4), 1]])
    Y = pts([[F(1, 4)], [2], [0]]) if D == 1 else pts([[F(1, 4), 0], [1, -1], [0, F(1, 2)]])
    progs = []
    for f1 in T:
        g = Prog(0, D)
        m = g.measure()
        a = g.gp(m, fn("1", ["1", "-1/2"][:D], "1/4"), {"k": "sum", "l": {"k": "rq"}, "r": {"k": "lin"}})
        b = g.gp(m, fn("2"), {"k": "rq"})
        s = g.bin("+", a, b)
        c = g.un(a, f1)
        e = g.un(s, f1)
        for f2 in T:
            g.un(c, f2)
        w = g.bin("-", c, e)
        u = g.un(w, T[0])
        v = g.bin("*", c, b)
        g.un(v, f1)
        for p in g.members(m):
            g.q_mean(m, p, X)
            for q in {a, b, c, e, p, u}:
                g.q_cov(m, p, q, X, Y)
                g.q_cov(m, q, p, Y, X)
        progs.append(g.ev)
    return progs


def narrow():
    """Selections that change the number of inputs, and warps into more dimensions."""
    progs = []
    for dims in ([1], [2], [2, 1], [1, 2, 2]):
        g = Prog(0, 2)
        m = g.measure()
        a = g.gp(m, fn("1", ["1"]), {"k": "stretch", "c": ["2"] * len(dims), "of": {"k": "rq"}}, dim=len(dims))
        b = g.gp(m, fn("0", ["1", "1"]), {"k": "rq"}, dim=2)
        c = g.un(a, {"k": "select", "dims": dims, "D": 2})
        d = g.bin("+", b, c)
        X, Y = pts([[-1, F(1, 2)], [F(3, 4), 1]]), pts([[F(1, 4), 0]])
        for p in (b, c, d):
            g.q_mean(m, p, X)
            for q in (b, c, d):
                g.q_cov(m, p, q, X, Y)
        e = g.un(d, {"k": "warp", "f": {"k": "pair"}})
        X1 = pts([[-1], [F(1, 2)]])
        g.q_mean(m, e, X1)
        for p in (b, c, d):
            g.q_cov(m, p, e, X, X1)
            g.q_cov(m, e, p, X1, X)
        g.q_cov(m, e, e, X1, X1, onearg=True)
        progs.append(g.ev)
    return progs


def rand(seed):
    g, m = base(seed, D=1 + seed % 2, gps=(1, 2))
    for _ in range(g.r.randint(2, 5)):
        grow(g, m, 1, ar=0.2, inp=0.55, prod=0.05, soft=1)
    if g.r.random() < 0.3:
        ps = [p for p in g.members(m) if g.soft[p] < 2]
        m = g.rcond(m, g.robs([g.r.choice(ps)], none=False))
        grow(g, m, 1, ar=0.0, inp=1.0)
    g.all_laws(m, limit=14)
    return g.ev


def approx(seed):
    """Finite differences: the derivatives of a smooth process, approximately."""
    g = Prog(seed, 1)
    m = g.measure()
    a = g.gp(m, fn("1", ["1/2"], "1/4"), {"k": "stretch", "c": ["2"], "of": {"k": "rq"}})
    b = g.gp(m, fn(), {"k": "lin"})
    s = g.bin("+", a, b)
    src = g.r.choice([a, b, s])
    n = (2, 1, 1, 3, 1, 1)[seed % 6]
    kw = g.r.choice([{}, {"order": 6}, {"deriv": 1, "order": 5}, {"deriv": 1}] if n == 1 else
                    [{"deriv": n}, {"deriv": n, "order": 6}, {"deriv": n, "order": 7}])
    d = g.un(src, {"k": "diff_approx", "d": 1, "n": n, "kw": kw})
    X, Y = g.rpoints(2), g.rpoints(2)
    t1, t2 = {1: ("1/1000", "1/1000"), 2: ("1/1000", "1/100"), 3: ("1/100", None)}[n]
    for p in (a, b, s, d) if n < 3 else (a, b, s):
        g.q_mean(m, p, X, tol=t1)
        g.q_cov(m, p, d, X, Y, tol=t2 if p == d else t1)
        g.q_cov(m, d, p, Y, X, tol=t2 if p == d else t1)
    m2 = g.cond(m, {"kind": "exact", "parts": [g.rpart(src, 3, none=False)], "us": []}, "obs")
    g.q_mean(m2, d, X, tol=t1)
    if n < 3:
        g.q_cov(m2, d, d, X, Y, tol="1/100")
    g.q_cov(m2, a, d, X, Y, tol=t1)
    if n == 1 and src != b:  # Observations of the derivative (low-rank differences are ill-conditioned).
        parts = [g.rpart(d, 3, none=False)] + ([g.rpart(g.r.choice([a, s]), 2, none=False)] if g.r.random() < 0.6 else [])
        g.r.shuffle(parts)
        m3 = g.cond(m, {"kind": "exact", "parts": parts, "us": []}, "obs")
        for p in (a, s, d):
            g.q_mean(m3, p, X, tol="1/100")
            g.q_cov(m3, p, d, X, Y, tol="1/50")
            g.q_cov(m3, a, p, X, Y, tol="1/100")
    return g.ev


def deriv(seed):
    """Exact derivatives (which need automatic differentiation)."""
    g = Prog(seed, 1 + seed % 2)
    g.consts = False  # The matrix library does not support these with TensorFlow.
    m = g.measure()
    for _ in range(g.r.randint(1, 2)):
        g.rgp(m, pd=True)
    grow(g, m, g.r.randint(0, 2), ar=0.4, inp=0.4, prod=0.1, soft=1)
    for _ in range(g.r.randint(1, 2)):
        p = g.r.choice([p for p in g.members(m) if g.diffable[p] and g.dim[p] == g.D])
        d = g.r.randint(1, g.D)
        q = g.un(p, {"k": "diff", "d": d, "dflt": g.r.random() < 0.5})
    if g.soft[q] == 0 and g.r.random() < 0.5:  # The second derivative.
        g.un(q, {"k": "diff", "d": g.r.randint(1, g.D)})
    grow(g, m, g.r.randint(0, 2), ar=0.4, inp=0.4)
    g.all_laws(m, limit=6)
    if g.r.random() < 0.5:
        ps = [p for p in g.members(m) if g.soft[p] < 2]
        m = g.rcond(m, g.robs([g.r.choice(ps)], n=2, none=False))
        g.all_laws(m, limit=4)
        ps = [p for p in ps if g.diffable[p] and g.dim[p] == g.D and g.soft[p] == 0]
        if ps:  # A derivative taken afterwards, of a process that is also in the posterior.
            p = g.r.choice(ps)
            q = g.un(p, {"k": "diff", "d": g.D})
            for x in g.r.sample(g.members(m), 2):
                g.q_cov(m, q, x, g.rX(q, 2), g.rX(x, 2))
            g.q_mean(m, q, g.rX(q, 2))
    return g.ev


def run(ctx):
    ctx.validate(systematic(1) + systematic(2) + narrow(), "every transform of every transform", exhaustive=True)
    ctx.validate([rand(ctx.seed * 100000 + i) for i in range(ctx.n(150))], "random programs with input transforms")
    ctx.validate([approx(ctx.seed * 100000 + i) for i in range(ctx.n(18))], "finite-difference derivatives")
    n = ctx.n(24)
    for ev in (progs := [deriv(ctx.seed * 100000 + i) for i in range(n)]):
        for e in ev:  # All inputs as matrices: gradients are taken with respect to their columns.
            for k in ("X", "Y"):
                if k in e:
                    e[k]["form"] = "mat"
            for part in e.get("obs", {}).get("parts", []):
                part["X"]["form"] = "mat"
                part["yform"] = "col"
    ctx.validate(progs, "exact derivatives (TensorFlow)", kws=[{"backend": "tf"}] * n)
