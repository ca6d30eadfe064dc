"""Sizes and selections of structured inputs."""
import itertools

from checks.c19 import PLAIN, inputs, rand as products, singles, structured
from families import *

ASKS = ["mean", "var", "var_diag", "mean_var", "marginals", "dim"]


def kernels():
    """All kernel expressions of two levels: dimensionality and sizes."""
    g = Prog(0, 1)
    m = g.measure()
    a, b, s, f = singles(g, m)
    c = g.cross(a, s)
    leaves = [{"k": "prim", "of": "rq"}, {"k": "prim", "of": "lin"}, {"k": "mok", "m": m, "ps": [a, s]}, {"k": "mok", "m": m, "ps": [b, a]},
              {"k": "mok", "m": m, "ps": [a, b, s]}, {"k": "mok", "m": m, "ps": [b, c]}, {"k": "mok", "m": m, "ps": [s]},
              {"k": "adk", "of": {"k": "prim", "of": "eq"}}, {"k": "adk", "of": {"k": "mok", "m": m, "ps": [a, s]}},
              {"k": "proc", "p": c}, {"k": "proc", "p": s}]
    wraps = ["scale", "stretch", "shift", "periodic", "reversed", "select", "transform"]
    one = [{"k": "wrap", "how": h, "of": k} for h in wraps for k in leaves]
    pairs = list(itertools.product(leaves, leaves))
    two = [{"k": "join", "how": h, "l": l, "r": r} for h in "+*" for l, r in pairs]
    two += [{"k": "sub", "l": l, "r": r} for l, r in pairs]
    few = [leaves[i] for i in (0, 2, 4, 5, 7)]
    two += [{"k": "post", "of": o, "l": l, "r": r} for o, l, r in itertools.product(few, few, few)]
    three = [{"k": "wrap", "how": wraps[i % len(wraps)], "of": k} for i, k in enumerate(two[::3])]
    three += [{"k": "join", "how": "+*"[i % 2], "l": k, "r": few[i % len(few)]} for i, k in enumerate(two[::2])]
    three += [{"k": "post", "of": k, "l": few[i % 5], "r": few[i % 3]} for i, k in enumerate(two[::4])]
    X, Y, Z, S = PLAIN
    ins = [X, Z, fddx(a, Y), tup(X, fddx(s, Z)), tup(tup(Z), fddx(a, S), Y), fddx(c, Z), tup(fddx(c, tup(Y, fddx(a, X))), Y)]
    progs = []
    ks = leaves + one + two + three
    for part in range(0, len(ks), 60):
        ev = list(g.ev)
        for i, k in enumerate(ks[part : part + 60]):
            ev.append(dict(op="kdim", kern=k))
            for j in range(2):
                ev.append(dict(op="ksize", kern=k, X=ins[(i + part + 3 * j) % len(ins)]))
        progs.append(ev)
    return progs


def processes(variant):
    """Sizes of all kinds of processes in prior and posterior, at all inputs."""
    g = Prog(0, 1)
    m = g.measure()
    a, b, s, f = singles(g, m)
    c = g.cross(a, s)
    d = g.cross(b, c, f)
    e = g.un(c, {"k": "c*p", "c": "2"})
    h = g.bin("+", c, g.cross(b, f))
    w = g.bin("*", a, f)
    t = g.un(d, {"k": "shift", "c": ["1/2"]})
    z = g.cross(w)
    ob = {"p": s, "X": pts([[F(1, 2)], [1]]), "noise": scal("1/4"), "y": ["1", "-1"], "yform": "vec"}
    m2 = g.cond(m, {"kind": "exact", "parts": [ob], "us": []}, "two")
    m3 = g.cond(m2, {"kind": ["vfe", "fitc", "dtc"][variant % 3], "parts": [dict(ob, p=a)], "us": [{"p": a, "X": pts([[0], [1]]), "noise": NONE}]}, "obs")
    m4 = g.cond(m3, {"kind": "exact", "parts": [dict(ob, p=c, y=["1", "2", "3", "4"])], "us": []}, "two")
    u = g.copy(m2, c)
    v = g.copy(m4, d)
    for mm in (m, m2, m3, m4):
        for p in g.members(mm):
            g.add(op="dimy", m=mm, p=p)
            for X in PLAIN:
                g.add(op="size", m=mm, p=p, X=X)
    for p, kind in ((c, "flat"), (d, "nested"), (e, "flat")):
        for mm in [(m, m2), (m3, m4)][variant % 2]:
            for k, X in enumerate(inputs(kind, a, b, s, f, c)):
                g.add(op="nel", X=X)
                g.add(op="size", m=mm, p=p, X=X)
                if k % 3 == variant // 2:  # The length of the mean and the side of the covariance.
                    g.q_fdd(p, X, NONE, mm, ["dim", "mean"])
                    g.q_cov(mm, p, p, X, X)
    return g.ev


def takes(which):
    """Every mask of distributions at nested inputs."""
    progs = []
    for variant in range(3):
        g = Prog(0, 1)
        m = g.measure()
        a, b, s, f = singles(g, m)
        c = g.cross(a, s)
        d = g.cross(b, c, f)
        ob = {"p": s, "X": pts([[F(1, 2)], [1]]), "noise": scal("1/4"), "y": ["1", "-1"], "yform": "vec"}
        if variant == 2:
            m2, a2 = g.cond(m, {"kind": "exact", "parts": [ob], "us": []}, "two", via=a)
            s2 = g.copy(m2, s)
            a, s = a2, s2
            c = g.cross(a, s)
            d = g.cross(s, c, a)
            b, f = s, a
        for p, kind in [(a, ""), (c, "flat"), (d, "nested")][which: which + 1]:
            ins = [PLAIN[0], PLAIN[3], pts([[0], [F(3, 4)], [1], [2]], "vec"), pts([[0], [F(3, 4)], [1]], "mat")] if not kind else inputs(kind, a, b, s, f, c)
            for k, X in enumerate(ins):
                n = g.nout(p, X)
                V = [F(i + 1, 4) for i in range(n)]
                M = [[V[i] + 1 if i == j else F(1, 4 + i + j) for j in range(n)] for i in range(n)]
                noise = [NONE, scal("1/2"), nvec(V), nmat(M), nvec(V, form="struct")][(k + variant) % 5]
                masks = list(itertools.product([0, 1], repeat=n))
                if len(masks) > 16:
                    g.r.seed(k)
                    masks = [masks[0], masks[-1]] + g.r.sample(masks, 14)
                for mask in masks:
                    g.add(op="take", m=0, p=p, X=X, noise=noise, mask=list(mask), asks=[{"a": x} for x in (ASKS if sum(mask) else ["dim", "mean", "var"])])
                for bad in ([0], list(range(n)), [1] * n, [0.5] * n):
                    g.add(op="badtake", m=0, p=p, X=X, noise=noise, mask=bad)
        progs.append(g.ev)
    return progs


def rand(seed):
    """Random programs with products: sizes and selections."""
    g = Prog(seed, 1)
    g2 = products(seed)  # The same programs as for products, with other questions.
    ops = ("measure", "gp", "un", "bin", "cross", "cond")
    h = replay(g2, ops)
    for _ in range(8):
        p = h.r.choice(range(1, h.np + 1))
        m = h.r.choice(h.ml[p])
        X = structured(h, p) if h.comp[p] else h.rpoints(h.r.randint(1, 3), h.dim[p])
        n = h.nout(p, X)
        h.add(op="nel", X=X)
        h.add(op="size", m=m, p=p, X=X)
        h.add(op="dimy", m=m, p=p)
        if n and not h.derived(p):
            mask = [h.r.randint(0, 1) for _ in range(n)]
            h.add(op="take", m=0, p=p, X=X, noise=h.rnoise(n), mask=mask, asks=[{"a": x} for x in ("mean", "var", "dim")])
    return h.ev


def dims(v):
    """The dimensionalities of all inputs in a program."""
    if isinstance(v, dict):
        return ([v["D"]] if "D" in v else []) + [d for x in v.values() for d in dims(x)]
    return [d for x in v for d in dims(x)] if isinstance(v, list) else []


def replay(ev, ops):
    """A builder for the constructions of a program."""
    D = max([1] + dims(ev))
    h = Prog(len(ev), D)
    for e in ev:
        if e["op"] not in ops:
            continue
        if e["op"] == "measure":
            h.measure()
        elif e["op"] == "gp":
            h.gp(e["m"], e["mean"], e["kern"], e["name"], mform=e.get("mform"))
        elif e["op"] == "un":
            h.un(e["p"], e["f"])
        elif e["op"] == "bin":
            h.bin(e["k"], e["p"], e["q"])
        elif e["op"] == "cross":
            h.cross(*e["ps"])
        elif e["op"] == "cond":
            h.cond(e["m"], e["obs"], e["form"], dot=e.get("dot", False))
    return h


def run(ctx):
    ctx.validate(kernels(), "all kernel expressions", exhaustive=True)
    ctx.validate([processes(k) for k in range(6)], "sizes of processes in prior and posteriors", exhaustive=True)
    ctx.validate([p for k in range(3) for p in takes(k)], "masks of distributions at nested inputs", exhaustive=True)
    ctx.validate([rand(ctx.seed * 100000 + i) for i in range(ctx.n(150))], "random programs with products")
    ctx.validate([large(ctx.seed * 100000 + i, ("product",)) for i in range(ctx.n(24))], "large programs")
