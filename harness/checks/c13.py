"""Missing observations count as not observed."""
import itertools

from families import *

Xq, Yq = pts([[0], [F(3, 4)]]), pts([[F(-1, 2)]], "vec")
VALS = ["1", "-1/2", "3/4", "2"]


def patterns(n):
    for t in itertools.product([0, 1], repeat=n):
        yield ["nan" if b else v for b, v in zip(t, VALS)]


def model():
    g = Prog(0, 1)
    m = g.measure()
    a = g.gp(m, fn("1", ["1/2"]), {"k": "rq"})
    b = g.gp(m, fn("-1"), {"k": "stretch", "c": ["2"], "of": {"k": "rq"}})
    s = g.bin("+", a, b)
    return g, m, a, b, s


def ask(g, m, obs, form, qs, us=()):
    if obs["kind"] == "exact":
        g.add(op="logpdf", m=m, obs=obs, form={"obs": "obs", "two": "two", "pair": "pairs", "pairs": "pairs"}[form])
    else:
        g.add(op="elbo", m=m, obs=obs, form="logpdf")
    m2 = g.cond(m, obs, form)
    for p, q in qs:
        g.q_mean(m2, p, Xq)
        g.q_cov(m2, p, q, Xq, Yq)


MAT = [["1", "1/4", "0"], ["1/4", "1/2", "1/8"], ["0", "1/8", "3/4"]]
MAT4 = [["1", "1/4", "0", "1/8"], ["1/4", "1/2", "1/8", "0"], ["0", "1/8", "3/4", "1/4"], ["1/8", "0", "1/4", "1"]]


def single():
    """Three observations of one process: all patterns, noises, kinds and inputs."""
    progs = []
    noises = [NONE, scal("1/2", form="py"), nvec(["1/4", "1/2", "1"]), nvec(["1/4", "1/2", "1"], form="struct"),
              nmat(MAT), nmat(MAT, form="struct")]
    for i, noise in enumerate(noises):
        g, m, a, b, s = model()
        for k, y in enumerate(patterns(3)):
            for xf in ("vec", "mat"):
                X = pts([[-1], [F(1, 2)], [1]], xf)
                part = {"p": s, "X": X, "noise": noise, "y": y, "yform": ["vec", "col"][k % 2]}
                ask(g, m, {"kind": "exact", "parts": [part], "us": []}, ["obs", "two", "pair"][k % 3], [(a, b), (s, s)])
                g.q_fdd(s, X, noise, 0, [{"a": "logpdf", "y": [y], "scalar": True, "yform": ["vec", "col"][k % 2]}])
        progs.append(g.ev)
        if noise["f"] in ("none", "mat"):
            continue
        for kind in ("vfe", "fitc", "dtc"):
            g, m, a, b, s = model()
            for k, y in enumerate(patterns(3)):
                if all(v == "nan" for v in y):
                    continue  # The property covers this for exact conditioning only.
                X = pts([[-1], [F(1, 2)], [1]], ["vec", "mat"][k % 2])
                u = {"p": a, "X": pts([[0], [1]]), "noise": NONE}
                part = {"p": s, "X": X, "noise": noise, "y": y, "yform": ["vec", "col"][k % 2]}
                ask(g, m, {"kind": kind, "parts": [part], "us": [u]}, "obs", [(a, b), (s, s)])
            progs.append(g.ev)
    for X in (pts([[F(1, 2)]], "scalar"), pts([[F(1, 2)]], "pyfloat"), pts([[F(1, 2)]], "vec"), pts([[F(1, 2)]])):
        for noise in (NONE, scal("1/2", form="py"), scal("1/2", form="np"), nvec(["1/2"]), nmat([["1/2"]])):
            g, m, a, b, s = model()
            for y in (["nan"], ["1"]):
                for yf in ("scalar", "vec", "col"):
                    if yf == "scalar" and X["form"] not in ("scalar", "pyfloat"):
                        continue
                    part = {"p": s, "X": X, "noise": noise, "y": y, "yform": yf}
                    ask(g, m, {"kind": "exact", "parts": [part], "us": []}, "two", [(a, b)])
                other = {"p": a, "X": pts([[0], [1]], "vec"), "noise": scal("1/4"), "y": ["1", "nan"], "yform": "vec"}
                ask(g, m, {"kind": "exact", "parts": [other, part], "us": []}, "pairs", [(a, b)])
            progs.append(g.ev)
    return progs


def several():
    """Four values over two observations, and over a Cartesian product."""
    progs = []
    X2, Z2 = pts([[-1], [F(1, 2)]], "vec"), pts([[0], [1]])
    for noise in (scal("1/2", form="py"), nvec(["1/4", "1/2"]), nmat([["1", "1/4"], ["1/4", "1/2"]])):
        g, m, a, b, s = model()
        gs = [g]
        for k, y in enumerate(patterns(4)):
            parts = [{"p": a, "X": X2, "noise": noise, "y": y[:2], "yform": "vec"},
                     {"p": s, "X": Z2, "noise": scal("1/4"), "y": y[2:], "yform": ["vec", "col"][k % 2]}]
            ask(g, m, {"kind": "exact", "parts": parts, "us": []}, ["obs", "pairs"][k % 2], [(a, b), (s, s)])
        if noise["f"] != "mat":
            for kind in ("vfe", "fitc", "dtc"):
                g, m, a, b, s = model()
                gs.append(g)
                for k, y in enumerate(patterns(4)):
                    if all(v == "nan" for v in y):
                        continue
                    us = [{"p": a, "X": pts([[0], [1]]), "noise": NONE}, {"p": s, "X": pts([[F(1, 2)]]), "noise": NONE}][: 1 + k % 2]
                    parts = [{"p": a, "X": X2, "noise": noise, "y": y[:2], "yform": "vec"},
                             {"p": s, "X": Z2, "noise": scal("1/4"), "y": y[2:], "yform": "vec"}]
                    ask(g, m, {"kind": kind, "parts": parts, "us": us}, "obs", [(a, b), (s, s)])
        progs += [g.ev for g in gs]
    for noise in (scal("1/2", form="py"), nvec(["1/4", "1/2", "1", "3/4"]), nmat(MAT4)):
        for inp in (lambda a, s, c: pts([[-1], [F(1, 2)]], "vec"), lambda a, s, c: pts([[-1], [F(1, 2)]]),
                    lambda a, s, c: tup(fddx(s, pts([[0]], "vec")), fddx(a, pts([[-1], [F(1, 2)], [1]]))),
                    lambda a, s, c: fddx(a, pts([[-1], [F(1, 2)], [1], [0]])),
                    lambda a, s, c: tup(fddx(s, Z2), pts([[F(1, 2)]], "vec"))):
            g, m, a, b, s = model()
            c = g.cross(a, s)
            X = inp(a, s, c)
            for k, y in enumerate(patterns(4)):
                part = {"p": c, "X": X, "noise": noise, "y": y, "yform": ["vec", "col"][k % 2]}
                ask(g, m, {"kind": "exact", "parts": [part], "us": []}, ["obs", "two", "pair"][k % 3], [(a, b), (s, s), (c, a)])
                if noise["f"] != "mat" and k < 15 and k % 3 == 0:
                    u = {"p": a, "X": pts([[0], [1]]), "noise": NONE}
                    ask(g, m, {"kind": ["vfe", "fitc", "dtc"][k % 9 // 3], "parts": [part], "us": [u]}, "obs", [(a, b), (c, s)])
            progs.append(g.ev)
    # Products of three, in which every part is another process.
    for comp in itertools.product(range(3), repeat=3):
        g, m, a, b, s = model()
        c = g.cross(*[(a, b, s)[i] for i in comp])
        for n, xf in ((1, "vec"), (2, "mat")):
            X = pts([[F(1, 2)], [-1]][:n], xf)
            pats = [p for p in itertools.product([0, 1], repeat=3 * n) if n == 1 or sum(p) in (1, 2, 5)][:: n]
            for k, t in enumerate(pats):
                if n == 2 and (k + comp[0] + 2 * comp[1]) % 4:
                    continue
                y = ["nan" if x else v for x, v in zip(t, VALS + ["-1", "1/4"])]
                part = {"p": c, "X": X, "noise": nvec(["1/4", "1/2", "1", "3/4", "1/8", "2"][: 3 * n]), "y": y, "yform": "vec"}
                ask(g, m, {"kind": "exact", "parts": [part], "us": []}, ["obs", "two", "pair"][k % 3], [(a, b)])
        progs.append(g.ev)
    # Three levels of nesting: a product with a product in it.
    g, m, a, b, s = model()
    c = g.cross(a, s)
    d = g.cross(b, c)
    for k, y in enumerate(patterns(3)):
        part = {"p": d, "X": pts([[F(1, 2)]], "vec"), "noise": scal("1/2"), "y": y, "yform": "vec"}
        ask(g, m, {"kind": "exact", "parts": [part], "us": []}, "two", [(a, b), (d, a)])
        part = {"p": d, "X": tup(fddx(b, pts([[F(1, 2)]], "vec")), fddx(c, pts([[0]]))), "noise": scal("1/2"), "y": y, "yform": "vec"}
        ask(g, m, {"kind": "exact", "parts": [part], "us": []}, "two", [(a, b), (d, a)])
    progs.append(g.ev)
    return progs


def rand(seed):
    g, m = base(seed, D=1 + (seed % 4 == 0), gps=(2, 2), pd=True)
    grow(g, m, 2, prod=0.05, soft=1)
    ps = [p for p in g.members(m) if g.soft[p] < 2]
    if seed % 3 == 0:
        p = g.r.choice(ps)
        ps.append(g.cross(p, *[g.r.choice(same_dim(g, p, ps)) for _ in range(g.r.randint(1, 3))]))
    cur = m
    for _ in range(2):
        kind = g.r.choice(["exact", "exact", "vfe", "fitc", "dtc"])
        us = [g.r.choice([p for p in ps if p in g.pd])] if kind != "exact" else None
        obs = g.robs([g.r.choice(ps) for _ in range(g.r.choice([1, 2, 3]))], g.r.choice([1, 2, 3]), 0.4, kind=kind, us=us, none=False)
        if kind != "exact" and all(v == "nan" for part in obs["parts"] for v in part["y"]):
            continue
        if kind == "exact":
            g.add(op="logpdf", m=cur, obs=obs, form="obs")
        else:
            g.add(op="elbo", m=cur, obs=obs, form="elbo")
        cur = g.rcond(cur, obs)
        g.all_laws(cur, limit=4)
    return g.ev


def run(ctx):
    ctx.validate(single(), "every pattern over one observation", exhaustive=True)
    ctx.validate(several(), "every pattern over several observations and products", exhaustive=True)
    ctx.validate([rand(ctx.seed * 100000 + i) for i in range(ctx.n(80))], "random programs with missing data")
    ctx.validate([large(ctx.seed * 100000 + i, ("law", "logpdf"), nan=0.3) for i in range(ctx.n(24))], "large programs")
