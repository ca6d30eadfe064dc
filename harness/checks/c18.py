"""The ELBO is the exact objective of its approximation, per measure."""
import mclaw
from checks.c17 import KINDS, data, inducing, model
from families import *


def systematic(kind):
    """All inducing points x data, asked for in several orders under several measures."""
    progs = []
    for ui in range(9):
        for di in range(6):
            g, m, a, b, s, h = model()
            c = g.cross(b, h)
            obs = {"kind": kind, "us": inducing(a, b, s, h, c)[ui], "parts": data(a, b, s, h, c)[di], "ref": "o"}
            n = g.cond(m, {"kind": "exact", "parts": [{"p": s, "X": pts([[2]]), "noise": scal("1/4"), "y": ["1"], "yform": "vec"}], "us": []}, "two")
            k = None
            asks = [(m, "elbo"), (n, "logpdf"), (m, "logpdf"), (n, "elbo"), (m, "elbo")]
            g.r.seed(100 * ui + di)
            g.r.shuffle(asks)
            post = g.r.randrange(len(asks))
            for i, (mm, form) in enumerate(asks):
                if i == post:
                    k = g.cond(g.r.choice([m, n]), obs, "obs")
                    g.q_mean(k, s, pts([[F(1, 2)]]))
                    g.q_cov(k, a, s, pts([[F(1, 2)]]), pts([[0]]))
                g.add(op="elbo", m=mm, obs=obs, form=form)
            g.add(op="elbo", m=k, obs=obs, form="elbo")
            g.add(op="elbo", m=n, obs=obs, form="logpdf")
            progs.append(g.ev)
    return progs


def rand(seed):
    g, m = base(seed, D=1 + (seed % 3 == 0), gps=(1, 3), pd=True)
    grow(g, m, g.r.randint(1, 3), inp=0.3, prod=0.05, soft=1)
    pd = [p for p in g.members(m) if p in g.pd]
    ps = [p for p in g.members(m) if g.soft[p] < 2]
    ms = [m]
    obss = []
    for i in range(g.r.randint(2, 3)):
        kind = g.r.choice(KINDS)
        obss.append(dict(g.robs([g.r.choice(ps) for _ in range(g.r.choice([1, 1, 2]))], g.r.choice([1, 2, 3]), kind=kind,
                                us=g.r.sample(pd, min(len(pd), g.r.choice([1, 1, 2]))), none=False), ref=i))
    for _ in range(9):
        o, mm = g.r.choice(obss), g.r.choice(ms)
        t = g.r.random()
        if t < 0.2 and len(ms) < 4:
            ms.append(g.cond(mm, o, "obs"))
        elif t < 0.35:
            g.q_cov(mm, g.r.choice(ps), g.r.choice(ps), g.rX(ps[0]), g.rX(ps[0])) if g.D == 1 else None
        else:
            g.add(op="elbo", m=mm, obs=o, form=g.r.choice(["elbo", "logpdf"]))
    return g.ev


def run(ctx):
    mclaw.check(ctx, "pseudo", P=3, M=2)
    ctx.validate([p for k in KINDS for p in systematic(k)], "approximations x inducing points x data x measures", exhaustive=True)
    ctx.validate([rand(ctx.seed * 100000 + i) for i in range(ctx.n(120))], "random histories")
    ctx.validate([large(ctx.seed * 100000 + i, ("elbo", "law"), kind=KINDS[i % 3]) for i in range(ctx.n(24))], "large programs")
