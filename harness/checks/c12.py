"""Answers do not depend on what was asked before."""
import itertools

from families import *

ASKS = ["mean", "var", "var_diag", "mean_var", "marginals"]
X2 = pts([[0], [F(3, 4)]], "vec")
FULL = ASKS + ["bounds", "dim", "m2", "diagonalise", "affine", "double", "kl", "entropy",
               {"a": "draws", "n": 2, "extra": "0"}, {"a": "draws", "n": 3, "extra": "1/2"},
               {"a": "logpdf", "y": [["1", "-1/2"]], "scalar": True}, {"a": "logpdf", "y": [["1", "nan"]], "scalar": True}]
NOISES = [NONE, scal("1/2", form="py"), nvec(["1/4", "1/2"]), nmat([["1", "1/4"], ["1/4", "1/2"]])]


def orders(quick):
    """A distribution is asked for everything, in every order."""
    progs = []
    perms = list(itertools.permutations(ASKS))
    for ni, noise in enumerate(NOISES):
        for part in range(3):
            g = Prog(0, 1)
            m = g.measure()
            a = g.gp(m, fn("1", ["1/2"]), {"k": "rq"})
            b = g.gp(m, None, {"k": "stretch", "c": ["2"], "of": {"k": "rq"}})
            s = g.bin("+", a, b)
            w = g.bin("*", a, b)
            ob = {"p": s, "X": pts([[F(1, 2)], [1]]), "noise": scal("1/4"), "y": ["1", "-1"], "yform": "vec"}
            m2, t = g.cond(m, {"kind": "exact", "parts": [ob], "us": []}, "two", via=s)
            u = {"p": a, "X": pts([[0], [1]]), "noise": NONE}
            m3, v = g.cond(m, {"kind": "fitc", "parts": [dict(ob)], "us": [u]}, "obs", via=a)
            c = g.cross(a, w)
            ps = [[b, w], [t, v], [s, c]][part]
            for p in ps:
                X, no = X2, noise
                if g.outs[p] > 1:
                    X = pts([[F(1, 4)]], "mat")
                for k, perm in enumerate(perms if p in (t, c) or not quick else perms[ni::4]):
                    g.q_fdd(p, X, no, 0, perm + ("mean_var", "marginals", "bounds"))
            progs.append(g.ev)
    return progs


def pairs(quick):
    """Everything that a distribution can be asked for, before everything else."""
    progs = []
    for ni, noise in enumerate(NOISES):
        g = Prog(0, 1)
        m = g.measure()
        a = g.gp(m, fn("1", ["1/2"]), {"k": "rq"})
        b = g.gp(m, None, {"k": "stretch", "c": ["2"], "of": {"k": "rq"}})
        s = g.bin("+", a, b)
        ob = {"p": s, "X": pts([[F(1, 2)], [1]]), "noise": scal("1/4"), "y": ["1", "-1"], "yform": "vec"}
        m2, t = g.cond(m, {"kind": "exact", "parts": [ob], "us": []}, "two", via=a)
        c = g.cross(a, s)
        for k, (x, y) in enumerate(itertools.product(FULL, FULL)):
            for p in (s, t, c)[k % 3 : k % 3 + 1] if quick else (s, t, c):
                g.q_fdd(p, pts([[F(1, 4)]], "vec") if p == c else X2, noise, 0, [x, y, "var_diag", "mean", "var", "marginals"])
        progs.append(g.ev)
    return progs


def access(seed):
    """All means and covariances of a measure, in a random order, around later operations."""
    g = Prog(0, 1)
    m = g.measure()
    a = g.gp(m, fn("1", ["1/2"]), {"k": "rq"})
    b = g.gp(m, None, {"k": "stretch", "c": ["2"], "of": {"k": "rq"}})
    s = g.bin("+", a, b)
    f = g.un(s, {"k": "p*f", "f": fn("1", ["1"])})
    h = g.un(a, {"k": "shift", "c": ["1/2"]})
    w = g.bin("*", a, h)
    ob = {"p": f, "X": pts([[F(1, 2)], [1]]), "noise": scal("1/4"), "y": ["1", "-1"], "yform": "vec"}
    m2 = g.cond(m, {"kind": "exact", "parts": [ob], "us": []}, "two")
    x = g.bin("-", w, h)
    c = g.gp(m2, None, {"k": "rq"})
    y = g.un(s, {"k": "stretch", "c": ["2"]})
    u = {"p": a, "X": pts([[0], [1]]), "noise": NONE}
    m3 = g.cond(m2, {"kind": "vfe", "parts": [dict(ob, p=s)], "us": [u]}, "obs")
    z = g.bin("+", x, y)
    X, Y = pts([[0]], "vec"), pts([[F(3, 4)]], "vec")
    # Every query goes to a random place after the objects that it mentions.
    place = {p: i for i, p in place_of(g.ev, g)}
    nplace = measures_of(g.ev, g)
    r = __import__("random").Random(seed)
    at = {i: [] for i in range(len(g.ev))}
    for mm in (m, m2, m3):
        for p in g.members(mm):
            for q in [None] + g.members(mm):
                q0 = dict(op="mean", m=mm, p=p, X=X) if q is None else dict(op="cov", m=mm, p=p, q=q, X=X, Y=Y)
                lo = max(place[p], place[q or p], nplace[mm])
                if q and r.random() < 0.5:
                    continue
                at[r.randint(lo, len(g.ev) - 1)].append(q0)
    ev = []
    for i, e in enumerate(g.ev):
        ev.append(e)
        r.shuffle(at[i])
        ev += at[i]
    return ev


def place_of(ev, g):
    p = 0
    for i, e in enumerate(ev):
        if e["op"] in {"gp", "un", "bin", "cross", "copy", "viacopy", "custom"}:
            p += 1
            yield i, p


def measures_of(ev, g):
    m, out = 0, {}
    for i, e in enumerate(ev):
        if e["op"] in {"measure", "cond"}:
            m += 1
            out[m] = i
    return out


def reuse(seed):
    """Distributions and observations that are used over and over."""
    g, m = base(seed, gps=(2, 2), pd=True)
    grow(g, m, 2, prod=0.1, soft=1)
    ps = [p for p in g.members(m) if g.soft[p] < 2]
    pd = [p for p in ps if p in g.pd]
    fd = []
    for i in range(3):
        p = g.r.choice(ps)
        X = g.rX(p, 2)
        fd.append(dict(p=p, X=X, noise=g.rnoise(2, none_ok(i)), ref=100 + i))
    obs = [g.robs([g.r.choice(ps)], 2, kind=k, us=[g.r.choice(pd)] if k != "exact" else None, none=False)
           for k in ("exact", "vfe", g.r.choice(["fitc", "dtc"]))]
    for i, o in enumerate(obs):
        o["ref"] = i
    ms = [m]
    for _ in range(14):
        t = g.r.random()
        mm = g.r.choice(ms)
        o = g.r.choice(obs)
        if t < 0.4:
            d = g.r.choice(fd)
            asks = g.r.sample(FULL[:-2], g.r.randint(1, 5))
            g.add(op="fdd", m=g.r.choice([0, 0, mm]), asks=[{"a": a} if isinstance(a, str) else dict(a) for a in asks] + [
                {"a": "logpdf", "y": [g.ry(2)], "scalar": True}], **d)
        elif t < 0.65:
            g.add(op="logpdf" if o["kind"] == "exact" else "elbo", m=mm, obs=o, form="obs")
        elif t < 0.8 and len(ms) < 4:
            ms.append(g.cond(mm, o, "obs"))
        elif t < 0.9:
            grow(g, mm, 1)
        else:
            d = g.r.choice(fd)
            g.q_sample([d], 1, m=g.r.choice([0, mm]), form="fdd", omit=True)
        mm = g.r.choice(ms)
        p, q = g.r.choice(g.members(mm)), g.r.choice(g.members(mm))
        g.q_cov(mm, p, q, g.rX(p, 1), g.rX(q, 2))
    return g.ev


def none_ok(i):
    return False


def run(ctx):
    ctx.validate(orders(not ctx.thorough), "every order of asking a distribution", exhaustive=True)
    ctx.validate(pairs(not ctx.thorough), "every ordered pair of questions", exhaustive=True)
    ctx.validate([access(ctx.seed * 100000 + i) for i in range(ctx.n(40))], "every covariance in random orders")
    ctx.validate([reuse(ctx.seed * 100000 + i) for i in range(ctx.n(80))], "objects that are used again")
