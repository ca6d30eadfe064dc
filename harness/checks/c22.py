"""Second moment, entropy, divergences, and diagonalisation of normals."""
from checks.c21 import ask, replay, validate
from gennormal import F, NProg, inv, mul


def rand(seed):
    """All pairs of random normals, also of shifted and transformed ones."""
    g = NProg(seed)
    n = g.r.choice([1, 1, 2, 2, 2, 3, 4])
    for _ in range(g.r.randint(2, 3)):
        g.rnew(n, pd=True)
    k = len(g.dims)
    c = [str(v) for v in g.vecr(n)]
    for i in range(1, 3):
        g.arith("n+c", i, c=c)
    g.arith("n*c", 1, c=["2"])
    g.arith("n+n", 1, b=2)
    g.arith("diagonalise", 1)
    for a in range(1, len(g.dims) + 1):
        for x in g.r.sample(["m2", "entropy", "diagonalise"], 2):
            g.ask(a, x)
        for b in g.r.sample(range(1, len(g.dims) + 1), 3) + [a]:
            g.pair("kl", a, b)
            if n < 3:
                g.pair("w2", a, b)
    return g.ev


def roots(seed):
    """Pairs of normals in any dimension with a known root for the Wasserstein distance."""
    g = NProg(seed)
    n = g.r.choice([1, 2, 3, 3, 4, 5])
    for _ in range(2):
        R, T = g.root(n), g.root(n)
        A = mul(R, R)
        Ri = inv(R)
        B = mul(mul(Ri, mul(T, T)), Ri)
        a = g.new(g.vecr(n), A, vform=g.r.choice(["np", "struct"]))
        b = g.new(g.vecr(n), B, vform=g.r.choice(["np", "struct"]))
        g.pair("w2", a, b, R, T)
        g.pair("kl", a, b)
        g.pair("kl", b, a)
        # A common shift changes nothing; diagonal matrices commute.
        c = [str(v) for v in g.vecr(n)]
        a2, b2 = g.arith("n+c", a, c=c), g.arith("n+c", b, c=c)
        g.pair("w2", a2, b2, R, T)
        D, E = [F(g.r.choice([1, 2, 3]), 2) for _ in range(n)], [F(g.r.choice([1, 2, 3]), 2) for _ in range(n)]
        dg = lambda v: [[v[i] if i == j else F(0) for j in range(n)] for i in range(n)]  # noqa: E731
        d = g.new(g.vecr(n), dg([x * x for x in D]), vform="diag")
        e = g.new(g.vecr(n), dg([x * x for x in E]), mform=g.r.choice(["col", "struct"]), vform=g.r.choice(["diag", "np"]))
        g.pair("w2", d, e, dg(D), dg([x * y for x, y in zip(D, E)]))
        g.pair("w2", e, d, dg(E), dg([x * y for x, y in zip(D, E)]))
        g.pair("w2", d, d, dg(D), dg([x * x for x in D]))
        for x in ("m2", "entropy", "diagonalise"):
            g.ask(a, x)
            g.ask(b, x)
    return g.ev


def run(ctx):
    r = ctx.mc("MCNormalAlg", env=dict(MAXN="6" if ctx.thorough else "5"), label="algebra and divergences of all small expressions")

    def tail(h):
        n, out = len(h), []
        for i in range(1, 4):
            out += [{"op": "pair", "k": k, "a": a, "b": b, "R": [], "T": []} for k in ("kl", "w2") for a, b in ((i, n), (n, i))]
        return out + [ask(n, x) for x in ("m2", "entropy", "diagonalise")]

    same = [m for m in r.msgs if dims(m["h"]) == 2]
    replay(ctx, "expressions of the specification", [{"h": h["h"]} for h in same], 20000 if ctx.thorough else 1200,
           lambda h: [e for e in tail(h) if "b" not in e or 3 not in (e["a"], e["b"])])
    validate(ctx, [rand(ctx.seed * 100000 + i) for i in range(ctx.n(150))], "random pairs")
    validate(ctx, [roots(ctx.seed * 100000 + i) for i in range(ctx.n(100))], "pairs with known roots")


def dims(h):
    """Dimensionality of the last normal of a history."""
    ds = []
    for e in h:
        if e["op"] == "new":
            ds.append(len(e["mean"]))
        elif e["k"] == "lmatmul":
            ds.append(len(e["A"]))
        elif e["k"] == "rmatmul":
            ds.append(len(e["A"][0]))
        else:
            ds.append(ds[e["a"] - 1])
    return ds[-1]
