"""A Cartesian product is the stacking of its processes."""
from families import *


def leaf(g, p, n=None, dim=None):
    """Inputs at which process p can be evaluated: for a product possibly structured."""
    return g.rpoints(n or g.r.randint(1, 2), g.dim[p], form=g.r.choice(["vec", "mat", "mat"]) if g.dim[p] == 1 else "mat")


def structured(g, c, depth=0):
    """A random structured input of a product (or of a multiple of one)."""
    comps = components(g, c)
    t = g.r.random()
    if not comps or depth > 2:
        return leaf(g, c)
    if t < 0.25:
        return leaf(g, c)
    if t < 0.5:
        q = g.r.choice(comps)
        return fddx(q, structured(g, q, depth + 1))
    return tup(*[structured(g, c, depth + 1) for _ in range(g.r.randint(1, 3))])


def components(g, c):
    """The processes at which a product can be evaluated, through multiples."""
    while g.comp[c] is None:
        if g.kind[c] not in ("p*c", "c*p", "p/c", "-p") or not g.multi(c):
            return []
        c = g.made[c][0]
    return g.comp[c]


def singles(g, m):
    a = g.gp(m, fn("1", ["1/2"]), {"k": "rq"})
    b = g.gp(m, fn("-1"), {"k": "stretch", "c": ["2"], "of": {"k": "rq"}})
    s = g.bin("+", a, b)
    f = g.un(s, {"k": "p*f", "f": fn("1", ["1"])})
    return a, b, s, f


PLAIN = [pts([[F(1, 2)]], "vec"), pts([[0], [F(3, 4)]], "vec"), pts([[0], [F(3, 4)]], "mat"), pts([[F(1, 4)]], "scalar")]


def inputs(kind, a, b, s, f, c):
    """Inputs of cross(a, s) and of cross(b, c, f) with c = cross(a, s)."""
    X, Y, Z, S = PLAIN
    own = [X, Y, Z, S, fddx(a, Y), fddx(s, Z), fddx(a, S), tup(fddx(s, X), fddx(a, Z)), tup(Y, fddx(a, X)),
           tup(fddx(a, X), tup(fddx(s, Y), fddx(a, Z)), X), tup(tup(X), Z), tup(fddx(s, Y)), tup(fddx(a, X), fddx(a, X))]
    if kind == "flat":
        return own
    return [X, Y, Z, fddx(b, Y), fddx(c, Z), fddx(c, tup(fddx(s, X), fddx(a, Y))), tup(fddx(f, Y), fddx(c, fddx(s, X))),
            tup(fddx(c, tup(Y, fddx(a, X))), fddx(b, X), Z)]


def systematic(which):
    progs = []
    for variant in range(6):
        g = Prog(0, 1)
        m = g.measure()
        a, b, s, f = singles(g, m)
        c = g.cross(a, s)
        d = g.cross(b, c, f)
        e = g.un(c, [{"k": "c*p", "c": "2"}, {"k": "-p"}, {"k": "p/c", "c": "-2"}][variant % 3])
        late = g.gp(m, fn("2"), {"k": "rq"})
        w = g.bin("-", late, a)
        ob = {"p": s, "X": pts([[F(1, 2)], [1]]), "noise": scal("1/4"), "y": ["1", "-1"], "yform": "vec"}
        mm = m
        if variant % 3 == 1:
            mm = g.cond(m, {"kind": "exact", "parts": [ob], "us": []}, "two")
        elif variant % 3 == 2:
            mm = g.cond(m, {"kind": ["vfe", "fitc"][variant % 2], "parts": [ob], "us": [{"p": a, "X": pts([[0], [1]]), "noise": NONE}]}, "obs")
        qs = [a, b, s, f, late, w]
        P = pts([[F(-1, 4)], [F(5, 4)]], "mat")
        ins = {c: inputs("flat", a, b, s, f, c), d: inputs("nested", a, b, s, f, c), e: inputs("flat", a, b, s, f, c)}
        p = [c, d, e][which]
        for k, X in enumerate(ins[p]):
            if which == 2 and X["k"] != "pts":
                # A multiple knows only the products and processes made before at such inputs.
                rest = [q for q in qs if q not in (late, w)]
            else:
                rest = qs
            g.q_mean(mm, p, X)
            g.q_cov(mm, p, p, X, ins[p][(k + variant) % len(ins[p])])
            g.q_elw(mm, p, p, X, X, onearg=True)
            q = rest[(k + variant) % len(rest)]
            # A multiple knows only the products and processes made before at such inputs.
            es = [x for x in rest if x not in (late, w)] if which == 2 else rest
            for x in (es[(k + variant) % len(es)], [c, d][k % 2]):
                elwise(g, mm, *((p, x) if k % 2 else (x, p)), es)
            g.q_cov(mm, p, q, X, P)
            g.q_cov(mm, q, p, P, X)
            for other in (c, d, e):
                if other != p:
                    Y = ins[other][(2 * k + variant) % len(ins[other])]
                    g.q_cov(mm, p, other, X, Y)
            n = g.nout(p, X)
            g.q_fdd(p, X, [NONE, scal("1/4"), nvec([F(i + 1, 4) for i in range(n)])][k % 3], mm if variant % 3 else 0,
                    ["mean", "var", "var_diag", "marginals", "mean_var", "dim"])
        progs.append(g.ev)
    return progs


def stacked(g, p):
    """Is a process a Cartesian product, or was it made of one?"""
    return any(g.comp[q] for q in g.anc(p))


def elwise(g, m, p, q, es, k=1):
    """Element-wise covariances of different processes, with products at inputs of the processes in es.

    A product at plain inputs has no elements that line up with those of another process, and the code says so.
    """
    dim = g.dim[p]
    n = g.r.choice([1, 2, 3])
    at = lambda x: fddx(g.r.choice(es), g.rpoints(x, dim)) if dim == 1 or x else None
    single = [not stacked(g, x) for x in (p, q)]
    if not any(single) and g.r.random() < 0.4:
        ns = [g.r.choice([1, 2]) for _ in range(g.r.choice([1, 2, 3]))]
        X, Y = [tup(*[at(i) for i in ns]) for _ in (p, q)]
    else:
        X, Y = [g.rpoints(n, dim) if s else at(n) for s in single]
    g.q_elw(m, p, q, X, Y)


def sums():
    """Sums and differences of products, of their multiples, and of products of products."""
    progs = []
    Xs = [PLAIN[0], PLAIN[2], PLAIN[3]]
    for variant in range(4):
        g = Prog(0, 1)
        m = g.measure()
        a, b, s, f = singles(g, m)
        c, d = g.cross(a, s), g.cross(b, f)
        if variant % 2:
            c, d = g.cross(c, f), g.cross(b, d)
        e = g.un(d, {"k": "c*p", "c": "-1/2"})
        mm = m
        if variant > 1:
            ob = {"p": s, "X": pts([[F(1, 2)], [1]]), "noise": scal("1/4"), "y": ["1", "-1"], "yform": "vec"}
            mm = g.cond(m, {"kind": ["exact", "fitc"][variant % 2], "parts": [ob],
                            "us": [{"p": a, "X": pts([[0], [1]]), "noise": NONE}] if variant % 2 else []}, "obs")
        made = [g.bin("+", c, d), g.bin("-", d, c), g.bin("+", c, e), g.bin("-", g.un(c, {"k": "-p"}), d)]
        made.append(g.bin("+", made[0], g.gp(m, fn(), {"k": "rq"}) and g.cross(*[f, b, b][: g.outs[c]])))
        for k, p in enumerate(made):
            for i, X in enumerate(Xs):
                n = g.nout(p, X)
                g.q_mean(mm, p, X)
                g.q_elw(mm, p, p, X, X, onearg=bool(i % 2))
                g.q_cov(mm, p, p, X, Xs[(i + k) % 3])
                g.q_cov(mm, p, [a, c, d, e][(i + k) % 4], X, Xs[(i + k + 1) % 3])
                g.q_cov(mm, [s, d, c, e][(i + k) % 4], p, Xs[(i + k + 1) % 3], X)
                g.q_fdd(p, X, [NONE, scal("1/4"), nvec([F(j + 1, 4) for j in range(n)])][(i + k) % 3], mm, ["marginals", "var_diag", "mean", "var", "bounds"])
        progs.append(g.ev)
    return progs


def draws(seed):
    """Draws of a product satisfy the relations of its processes; conditioning on and through it."""
    g = Prog(seed, 1)
    m = g.measure()
    a, b, s, f = singles(g, m)
    c = g.cross(a, s, b)
    X = g.rpoints(2)
    ws = [[1, 0, -1, 0, 1, 0], [0, 1, 0, -1, 0, 1], [1, 1, 1, 1, 1, 1], [0, 1, 0, 0, 0, 0]]
    g.q_sample([{"p": c, "X": X, "noise": scal("1/10")}], 3000, form="fdd", ws=ws, seed=seed)
    kind = ["exact", "vfe", "fitc", "dtc"][seed % 4]
    Xs = structured(g, c)
    part = g.rpart(c, X=Xs, diag=True, none=False)
    us = [{"p": c, "X": tup(fddx(a, pts([[0], [1]])), fddx(b, pts([[F(1, 2)]], "vec"))), "noise": NONE}] if kind != "exact" else []
    m2 = g.cond(m, {"kind": kind, "parts": [part], "us": us}, "obs")
    g.all_laws(m2, [a, b, s, f, c], limit=10)
    g.q_sample([{"p": c, "X": X, "noise": scal("1/10")}, {"p": f, "X": pts([[F(1, 2)]]), "noise": scal("1/10")}], 2000, m=m2, seed=seed,
               ws=[w + [0] for w in ws])
    return g.ev


def rand(seed):
    g, m = base(seed, D=1 + (seed % 5 == 0), gps=(2, 3))
    grow(g, m, g.r.randint(0, 2), inp=0.3, prod=0.1, soft=1)
    prods, ms = [], [m]
    for _ in range(g.r.randint(2, 6)):
        t = g.r.random()
        m = g.r.choice(ms)
        ps = [p for p in g.members(m) if g.soft[p] < 2]
        home = g.r.choice(ps)
        same = [p for p in ps if g.ml[p][0] == g.ml[home][0] and g.dim[p] == g.dim[home]]
        if t < 0.4:
            c = g.cross(*[g.r.choice(same) for _ in range(g.r.choice([1, 2, 2, 3]))])
            prods.append(c)
        elif t < 0.55 and prods:
            c = g.r.choice(prods)
            k = g.r.choice(["scale", "shift", "neg", "sum"])
            if g.outs[c] == 1 and k == "sum":
                continue
            if k == "scale":
                prods.append(g.un(c, {"k": "c*p", "c": g.coef()}))
            elif k == "neg":
                prods.append(g.un(c, {"k": "-p"}))
            elif k == "shift":
                prods.append(g.un(c, {"k": "shift", "c": ["1/2"]}))
            else:
                qs = no_cancel(g, c, [q for q in prods if g.outs[q] == g.outs[c] and g.ml[q][0] == g.ml[c][0] and g.dim[q] == g.dim[c]])
                if qs:
                    prods.append(g.bin(g.r.choice("+-"), c, g.r.choice(qs)))
        elif t < 0.7:
            grow(g, m, 1, prod=0.1, soft=1)
        elif t < 0.8:
            g.rgp(m)
        elif len(ms) < 3:
            pd = [p for p in ps if p in g.pd and g.outs[p] == 1]
            kind = g.r.choice(["exact", "exact", "vfe", "fitc", "dtc"]) if pd else "exact"
            ms.append(g.rcond(m, g.robs([g.r.choice(ps)], 2, kind=kind, us=[g.r.choice(pd)] if kind != "exact" else None, none=False)))
    for _ in range(8):
        m = g.r.choice(ms)
        ps = [p for p in g.members(m)]
        cs = [p for p in prods if p in ps]
        p = g.r.choice(cs or ps)
        q = g.r.choice(ps)
        X = structured(g, p) if g.comp[p] else leaf(g, p)
        Y = structured(g, q) if g.comp[q] else leaf(g, q)
        t = g.r.random()
        if t < 0.2:
            g.q_mean(m, p, X)
        elif t < 0.4:
            g.q_elw(m, p, p, X, X)
            es = [x for c in cs for x in g.comp[c] or [] if not stacked(g, x)]
            if es and all(g.comp[x] or not stacked(g, x) for x in (p, q)):
                elwise(g, m, *((p, q) if g.r.getrandbits(1) else (q, p)), es)
        elif t < 0.7:
            g.q_cov(m, p, q, X, Y)
        elif t < 0.85:
            g.q_cov(m, q, p, Y, X)
        else:
            g.q_fdd(p, X, g.rnoise(g.nout(p, X)), m)
    return g.ev


def run(ctx):
    ctx.validate([p for k in range(3) for p in systematic(k)], "products, products of products, and multiples at all inputs", exhaustive=True)
    ctx.validate(sums(), "sums of products", exhaustive=True)
    ctx.validate([draws(i) for i in range(ctx.n(8))], "draws of and conditioning on products")
    ctx.validate([rand(ctx.seed * 100000 + i) for i in range(ctx.n(200))], "random programs with products")
    ctx.validate([large(ctx.seed * 100000 + i, ("product", "law")) for i in range(ctx.n(24))], "large programs")
