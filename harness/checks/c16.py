"""Samples come from the stated law."""
from checks.c21 import validate as normal_validate
from families import *
from gennormal import NProg

N = 40000


def d(p, X, noise=NONE):
    return {"p": p, "X": X, "noise": noise}


def unit(n, *iv):
    w = ["0"] * n
    for i, v in iv:
        w[i] = rs(v)
    return w


def relations(seed):
    """Processes that are deterministic functions of each other, in prior and posterior."""
    g = Prog(seed, 1)
    m = g.measure()
    a = g.gp(m, g.rfn(1), {"k": "rq"})
    b = g.gp(m, g.rfn(1), {"k": "stretch", "c": ["2"], "of": {"k": "rq"}})
    s = g.bin("+", a, b)
    t = g.un(s, {"k": "c*p", "c": "-3/2"})
    u = g.un(a, {"k": "shift", "c": ["1/2"]})
    x = g.bin("-", t, b)
    cur = m
    for stage in range(2):
        X = g.rpoints(2, form=g.r.choice(["vec", "mat"]))
        Xs = pts([[F(r[0]) + F(1, 2)] for r in X["x"]])
        ps = [(a, X), (b, X), (s, X), (t, X), (u, Xs), (x, X)]
        order = list(range(6))
        g.r.shuffle(order)
        pos = {k: 2 * order.index(k) for k in range(6)}
        ws = []
        for j in range(2):
            ws.append(unit(12, (pos[2] + j, 1), (pos[0] + j, -1), (pos[1] + j, -1)))
            ws.append(unit(12, (pos[3] + j, 1), (pos[2] + j, F(3, 2))))
            ws.append(unit(12, (pos[4] + j, 1), (pos[0] + j, -1)))
            ws.append(unit(12, (pos[5] + j, 1), (pos[3] + j, -1), (pos[1] + j, 1)))
        for n, kw in ((1, dict(omit=True)), (1, {}), (3, {}), (N, {})):
            g.q_sample([d(*ps[k]) for k in order], n, m=cur, state=g.r.choice(["explicit", "global"]), seed=seed + n,
                       ws=ws, again=n < N, **kw)
        if stage == 0:
            cur = g.cond(m, {"kind": "exact", "parts": [g.rpart(g.r.choice([a, s, t]), 2, none=False)], "us": []}, "obs")
    return g.ev


def rand(seed):
    """Random processes, measures, blocks, noises and ways to ask."""
    g, m = base(seed, D=1 + (seed % 4 == 0), gps=(2, 2), pd=True)
    grow(g, m, g.r.randint(1, 3), prod=0.05, soft=1)
    if g.r.random() < 0.4:
        p = g.r.choice([p for p in g.members(m) if g.dim[p] == g.D])
        g.cross(p, g.r.choice(same_dim(g, p, g.members(m))))
    cur = m
    for stage in range(2):
        ps = [p for p in g.members(cur) if g.soft[p] < 2]
        for _ in range(3):
            p = g.r.choice(ps)
            form = g.r.choice(["fdd", "measure", "measure"])
            blocks = [p] if form == "fdd" else [p] + [g.r.choice(same_home(g, p, ps)) for _ in range(g.r.choice([0, 1, 2]))]
            blocks = [q for q in blocks if all(g.compat(q, r) for r in blocks)]
            ds = []
            for q in blocks:
                X = g.rX(q, g.r.randint(1, 2))
                ds.append(d(q, X, g.rnoise(g.nout(q, X))))
            if not ds:
                continue
            if form == "measure" and g.r.random() < 0.2:  # One distribution object, several times.
                e = g.r.choice(ds)
                e["ref"] = f"s{len(g.ev)}"
                ds.insert(g.r.randint(0, len(ds)), e)
            k = sum(g.nout(e["p"], e["X"]) for e in ds)
            extra = scal(g.r.choice(["1/2", "2"]), form=g.r.choice(["py", "np"])) if form == "fdd" and g.r.random() < 0.5 else NONE
            n = g.r.choice([1, 2, N, N])
            g.q_sample(ds, n, m=cur if form == "measure" or cur != g.ml[p][0] or g.r.random() < 0.3 else 0, form=form,
                       state=g.r.choice(["explicit", "global"]), seed=seed + 17, extra=extra, again=n < N,
                       omit=n == 1 and g.r.random() < 0.5, kwn=g.r.random() < 0.3,
                       ws=[[g.coef() for _ in range(k)] for _ in range(2)])
        if stage == 0:
            c = [p for p in ps if g.outs[p] == 1]
            kind = g.r.choice(["exact", "exact", "vfe", "fitc", "dtc"])
            us = [g.r.choice([p for p in c if p in g.pd] or c)] if kind != "exact" else None
            via = g.r.choice([None, None, g.r.choice(c)])
            r = g.rcond(m, g.robs([g.r.choice(c)], kind=kind, us=us, none=False), via)
            cur = r[0] if via else r
    return g.ev


def same_home(g, p, ps):
    return [q for q in ps if g.ml[q][0] == g.ml[p][0]]


BACKENDS = ["numpy", "autograd", "torch", "tf", "jax"]


def backends(seed):
    """Draws with every backend are functions of the state and advance it."""
    g, m = base(seed, gps=(2, 2), pd=True, consts=False)
    g.bin("+", 1, 2)
    c = g.cond(m, {"kind": "exact", "parts": [g.rpart(3, 2, none=False)], "us": []}, "obs")
    for state in ("explicit", "global"):
        for form, k in (("fdd", 1), ("measure", 1), ("measure", 2)):
            for n, kw in ((1, dict(omit=True)), (1, {}), (2, {})):
                ds = [d(p, g.rX(p, 2), g.rnoise(2)) for p in g.r.sample([1, 2, 3], k)]
                g.q_sample(ds, n, m=g.r.choice([m, c]), state=state, form=form, seed=seed % 1000 + n, again=True, **kw)
    return g.ev


def normals(seed):
    """Normals by themselves."""
    g = NProg(seed)
    for _ in range(2):
        g.rnew(g.r.choice([1, 2, 3]))
    g.rarith()
    for _ in range(5):
        n = g.r.randint(1, len(g.dims))
        num = g.r.choice([1, 2, N, N])
        extra = scal(g.r.choice(["1/2", "2"]), form=g.r.choice(["py", "np"])) if g.r.random() < 0.4 else NONE
        g.sample(n, num, extra, g.r.choice(["explicit", "global"]), again=num < N and n not in g.const, omit=num == 1 and g.r.random() < 0.5,
                 ws=[[rs(c) for c in g.vecr(g.dims[n - 1])] for _ in range(2)])
    return g.ev


def run(ctx):
    k = ctx.n(20)
    ctx.validate([backends(ctx.seed * 100000 + i) for i in range(k)], "every backend",
                 kws=[{"backend": BACKENDS[i % 5]} for i in range(k)])
    normal_validate(ctx, [normals(ctx.seed * 100000 + i) for i in range(ctx.n(60))], "samples of normals")
    ctx.validate([relations(ctx.seed * 100000 + i) for i in range(ctx.n(12))], "deterministic relations")
    ctx.validate([rand(ctx.seed * 100000 + i) for i in range(ctx.n(100))], "random samples")
    ctx.validate([large(ctx.seed * 100000 + i, ("sample", "law")) for i in range(ctx.n(12))], "large programs")
