"""Backends, floating-point types, and gradients."""
from backendworld import BACKENDS
from families import *

H = "1/65536"
ASKS = ["mean", "var", "var_diag", "mean_var", "marginals", "bounds", "dim", "m2", "diagonalise", "entropy"]


def noconst(k):
    """The matrix library cannot add constant matrices and others of PyTorch and TensorFlow: no constants."""
    k = {x: noconst(v) if x in ("of", "l", "r") else v for x, v in k.items()}
    if k["k"] in ("sum", "prod"):
        for a, b in ("lr", "rl"):
            if constant(k[a]):
                return k[b]
    return k


def constant(k):
    return k["k"] == "const" or k["k"] in ("scale", "stretch") and constant(k["of"])


def model(g, m, n=(1, 3)):
    for _ in range(g.r.randint(1, 2)):
        g.rgp(m, pd=True)
        g.ev[-1]["kern"] = noconst(g.ev[-1]["kern"])
    grow(g, m, g.r.randint(*n), soft=0)
    if g.r.random() < 0.35:
        p = g.r.choice([p for p in g.members(m) if g.outs[p] == 1])
        g.cross(p, g.r.choice(same_dim(g, p, g.members(m))))


def observe(g, m, soft=1):
    """A random observation, with noise."""
    c = [p for p in g.members(m) if g.soft[p] < soft]
    kind = g.r.choice(["exact", "exact", "vfe", "fitc", "dtc"])
    us = [g.r.choice([p for p in c if p in g.pd])] if kind != "exact" else None
    ps = g.r.sample(c, min(len(c), g.r.choice([1, 1, 2])))
    obs = g.robs(ps, g.r.randint(1, 2), kind=kind, us=us, none=False)
    for u in obs["us"]:
        u["noise"] = scal(F(1, 10))
    return obs


def values(seed):
    """All kinds of queries in the prior and the posterior."""
    g = Prog(seed, 1 + (seed % 3 == 0))
    m = g.measure()
    model(g, m)
    cur = m
    for stage in range(2):
        ps = [p for p in g.members(cur) if g.soft[p] < 1]
        p, q = g.r.choice(ps), g.r.choice(ps)
        g.q_mean(cur, p, g.rX(p))
        g.q_cov(cur, p, q, g.rX(p), g.rX(q))
        X = g.rX(p, 2)
        g.q_elw(cur, p, p, X, X, onearg=True)
        p = g.r.choice(ps)
        X = g.rX(p)
        no = g.rnoise(g.nout(p, X), allow_none=False)
        y = [g.ry(g.nout(p, X)) for _ in range(g.r.choice([1, 2]))]
        g.q_fdd(p, X, no, cur, asks=g.r.sample(ASKS, 4) + [{"a": "logpdf", "y": y, "scalar": len(y) == 1, "yform": "col"}])
        obs = observe(g, cur)
        if obs["kind"] == "exact":
            g.add(op="logpdf", m=cur, obs=obs, form="obs")
        else:
            g.add(op="elbo", m=cur, obs=obs, form=g.r.choice(["elbo", "logpdf"]))
        ds = [{"p": x, "X": (X := g.rX(x, 1)), "noise": g.rnoise(g.nout(x, X), allow_none=False)} for x in [p, q][: g.r.choice([1, 2])]]
        g.q_sample(ds, g.r.choice([1, 3]), m=cur, state=g.r.choice(["explicit", "global"]), seed=seed % 1000, again=True)
        if stage == 0:
            cur = g.rcond(cur, obs)
    return g.ev


def hole(g, t, depth=0):
    """Places in a program where a parameter can stand: (container, key, where)."""
    out = []
    for ev in t:
        if ev["op"] == "gp":
            for c, k in kern_holes(ev["kern"]):
                out.append((c, k, "kernel"))
            if not ev["mean"]["c1"] and ev["mean"]["c2"] == "0" and ev.get("mform") is None:
                out.append((ev["mean"], "c0", "mean"))
            elif ev["mean"]["c1"]:
                out.append((ev["mean"], "c0", "mean"))
        elif ev["op"] == "un":
            f = ev["f"]
            if "c" in f and isinstance(f["c"], str):
                f.pop("cform", None)
                out.append((f, "c", "constant"))
            elif f["k"] in ("shift", "stretch") and len(f["c"]) == 1 and not f.get("arr"):
                out.append((f["c"], 0, "transform"))
            elif "f" in f and "c0" in f["f"]:
                out.append((f["f"], "c0", "function"))
        elif ev["op"] in ("cond", "logpdf", "elbo"):
            for d in ev["obs"]["parts"] + ev["obs"]["us"]:
                out += fdd_holes(d)
                if "y" in d:
                    out += [(d["y"], i, "data") for i in range(len(d["y"]))]
        elif ev["op"] == "fdd":
            out += fdd_holes(ev)
        if ev["op"] in ("mean", "cov"):
            out += input_holes(ev["X"])
    return out


def kern_holes(k):
    out = []
    if k["k"] == "scale":
        out.append((k, "c"))
    if k["k"] == "stretch" and len(k["c"]) == 1:
        out.append((k["c"], 0))
    for x in ("of", "l", "r"):
        if x in k:
            out += kern_holes(k[x])
    return out


def input_holes(X):
    if X["k"] != "pts" or X["form"] not in ("vec", "mat"):
        return []
    return [(r, j, "input") for r in X["x"] for j in range(len(r))]


def fdd_holes(d):
    out = input_holes(d["X"])
    if d["noise"]["f"] == "scalar":
        d["noise"]["form"] = "py"
        d["noise"].pop("int", None)
        out.append((d["noise"], "v", "noise"))
    elif d["noise"]["f"] == "vec":
        out += [(d["noise"]["v"], i, "noise") for i in range(len(d["noise"]["v"]))]
    return out


def gradient(seed, backend=None):
    """A program and one of its numbers as the parameter."""
    g = Prog(seed, 1 + (seed % 3 == 0))
    m = g.measure()
    kern = g.r.choice([{"k": "scale", "c": "3/2", "of": {"k": "stretch", "c": ["3/2"], "of": {"k": "rq"}}},
                       {"k": "stretch", "c": ["2"], "of": {"k": "rq"}}, {"k": "scale", "c": "2", "of": {"k": "rq"}}])
    g.gp(m, fn(g.r.choice(["1", "-1/2"]), *[["1/2"] * g.D] * g.r.choice([0, 1])), kern)
    model(g, m)
    obs = observe(g, m)
    auto = backend == "autograd"  # It cannot differentiate diagonals of matrices.
    if g.r.random() < 0.4 and not auto:
        if obs["kind"] == "exact":
            g.add(op="logpdf", m=m, obs=obs, form="obs")
        else:
            g.add(op="elbo", m=m, obs=obs, form=g.r.choice(["elbo", "logpdf"]))
    else:
        c = g.rcond(m, obs) if g.r.random() < 0.75 else m
        ps = [p for p in g.members(c) if g.soft[p] < 1]
        p, q = g.r.choice(ps), g.r.choice(ps)
        X = g.rX(p, 2)
        k = g.r.choice(["mean", "cov", "fdd", "fdd"])
        if k == "mean":
            g.q_mean(c, p, X)
        elif k == "cov":
            g.q_cov(c, p, q, X, g.rX(q, 2))
        else:
            a = g.r.choice(["mean", "var", "var_diag", "mean_var", "marginals", "entropy", "logpdf"][: 5 if auto else 7])
            a = {"a": a}
            if a["a"] == "logpdf":
                a.update(y=[g.ry(g.nout(p, X))], scalar=True, yform="col")
            g.q_fdd(p, X, scal(F(1, 4)), c, asks=[a])
    hs = [h for h in hole(g, g.ev) if not (auto and isinstance(h[0], dict) and h[0].get("k") in ("c-p", "c+p", "c*p"))]  # Autograd's numbers do not defer to others.
    where = g.r.choice(sorted({w for _, _, w in hs}))
    o, k, _ = g.r.choice([h for h in hs if h[2] == where])
    at, o[k] = o[k], "@"
    return g.ev, at, where



def run(ctx):
    n = ctx.n(8, 60)
    progs, kws, tols = [], [], []
    for j, (b, t) in enumerate([(b, t) for b in BACKENDS for t in ("float64", "float32")]):
        if (b, t) == ("numpy", "float64"):
            continue
        for i in range(n):
            progs.append(values(ctx.seed * 100000 + 100 * j + i))
            kws.append(dict(backend=b, dtype=t))
    for t, tol in (("float64", "1/1000000"), ("float32", "1/200")):
        idx = [i for i, k in enumerate(kws) if k["dtype"] == t]
        ctx.validate([progs[i] for i in idx], f"values in {t}", [kws[i] for i in idx], tol, world="backendworld.BackendWorld")
    progs, kws = [], []
    for j, b in enumerate(BACKENDS[1:]):
        for i in range(ctx.n(20, 200)):
            p, at, _ = gradient(ctx.seed * 100000 + 1000 * j + i, b)
            progs.append(p)
            kws.append(dict(at=at, h=H, backend=b, jit=b == "jax" and i % 2 == 0))
    ctx.validate(progs, "gradients", kws, "1/100000", world="backendworld.GradWorld")
