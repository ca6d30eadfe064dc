"""Measures are isolated: what has been established never changes."""
import copy

from families import *


class Est:
    """Laws that were asked for, to be asked for again, word for word."""

    def __init__(self, g):
        self.g, self.qs, self.n = g, [], 0

    def law(self, m):
        g = self.g
        ps = [p for p in g.members(m)]
        p = g.r.choice(ps)
        q = g.r.choice([q for q in ps if g.compat(p, q)])
        n = len(g.ev)
        g.q_mean(m, p, g.rX(p, 2))
        g.q_cov(m, p, q, g.rX(p, 1), g.rX(q, 2))
        self.keep(n)

    def keep(self, n):
        self.qs += copy.deepcopy(self.g.ev[n:])

    def again(self, k=None):
        qs = self.qs if k is None or len(self.qs) <= k else self.g.r.sample(self.qs, k)
        self.g.ev += copy.deepcopy(qs)
        for m in range(1, self.g.nm + 1):
            self.g.add(op="members", m=m)


def rand(seed, steps=9):
    """Several priors and posteriors, extended and conditioned again in any interleaving."""
    g = Prog(seed, 1 + (seed % 6 == 0))
    e = Est(g)
    for _ in range(g.r.choice([1, 1, 2])):
        m = g.measure()
        for _ in range(g.r.randint(1, 2)):
            g.rgp(m, pd=True)
        grow(g, m, g.r.randint(1, 2), prod=0.1, soft=1)
        e.law(m)
    shared, nref = [], 0
    for _ in range(steps):
        m = g.r.randint(1, g.nm)
        ps = g.members(m)
        ok = [p for p in ps if g.soft[p] < 2 and g.outs[p] == 1]
        t = g.r.random()
        if t < 0.36 and g.nm < 7 and ok:
            kind = g.r.choice(["exact", "exact", "vfe", "fitc", "dtc"])
            use = [o for o in shared if all(d["p"] in ps for d in o["parts"] + o["us"])]
            if use and g.r.random() < 0.6:
                obs = g.r.choice(use)
            else:
                p = g.r.choice(ok)
                obsd = [p] + ([g.r.choice([q for q in ok if g.ml[q][0] == g.ml[p][0]])] if g.r.random() < 0.4 else [])
                pd = [q for q in ok if q in g.pd]
                if not pd:
                    kind = "exact"
                obs = g.robs(obsd, g.r.choice([1, 2, 2]), kind=kind, us=[g.r.choice(pd)] if kind != "exact" else None, none=False)
                nref += 1
                obs["ref"] = nref
                shared.append(obs)
            if g.r.random() < 0.4:  # Ask for the evidence first, or instead.
                op = "logpdf" if obs["kind"] == "exact" else "elbo"
                n = len(g.ev)
                g.add(op=op, m=m, obs=obs, form=g.r.choice(["obs", "logpdf"]) if op == "elbo" else "obs")
                e.keep(n)
            cand = [p for p in ok if g.ml[p][0] == m]
            via = g.r.choice(cand) if cand and g.r.random() < 0.25 else None
            m2 = g.cond(m, obs, "obs", via, bool(g.r.getrandbits(1)))
            e.law(m2[0] if via else m2)
        elif t < 0.5 and g.np < 10:
            g.rgp(m, pd=True)
        elif t < 0.72 and g.np < 10:
            grow(g, m, 1, prod=0.2, soft=1)
        elif t < 0.78 and g.np < 10:
            p = g.r.choice(ok)
            g.copy(m, p)
        elif t < 0.83 and g.np < 10:
            p = g.r.choice(ok)
            q = g.r.choice([q for q in ok if g.ml[q][0] == g.ml[p][0] and g.dim[q] == g.dim[p]])
            g.cross(p, q)
        elif t < 0.9 and ok:
            p = g.r.choice(ok)
            g.q_sample([{"p": p, "X": g.rX(p, 1), "noise": scal(F(1, 4))}], 2, m=m, form=g.r.choice(["measure", "fdd"]),
                       state=g.r.choice(["explicit", "global"]), seed=seed)
        else:  # A distribution that is kept and asked again later.
            p = g.r.choice(ps)
            X = g.rX(p, 2)
            nref += 1
            n = len(g.ev)
            g.q_fdd(p, X, g.rnoise(g.nout(p, X)), g.r.choice([0, 0, m]), ["mean", "var", "marginals"], ref=nref)
            e.keep(n)
        e.law(g.r.randint(1, g.nm))
        e.again(4)
    e.again()
    g.add(op="same", what="args")
    return g.ev


def lifetime(seed):
    """Priors and posteriors of which the program keeps only what it still needs."""
    g = Prog(seed, 1)
    for _ in range(g.r.randint(3, 5)):
        implicit = g.r.random() < 0.6
        if implicit:
            a = g.gp(0, g.rfn(1), {"k": "rq"})
            m = g.ml[a][0]
        else:
            m = g.measure()
            a = g.rgp(m, pd=True)
        if g.r.random() < 0.6:
            g.rgp(m, pd=True)
        grow(g, m, g.r.randint(1, 4), prod=0.1, soft=1)
        for _ in range(g.r.randint(0, 2)):
            ok = [p for p in g.members(m) if g.soft[p] < 2 and g.outs[p] == 1]
            p = g.members(m)[-1]
            kind = g.r.choice(["exact", "exact", "exact", "vfe", "fitc", "dtc"])
            pd = [q for q in ok if q in g.pd]
            obs = g.robs([g.r.choice(ok)], 2, kind=kind, us=[g.r.choice(pd)] if kind != "exact" and pd else None, none=False)
            if not obs["us"]:
                obs["kind"] = "exact"
            via = [q for q in ok if g.ml[q][0] == m]
            if g.r.random() < 0.5 or not via:
                m = g.rcond(m, obs)
            else:
                m, p = g.rcond(m, obs, g.r.choice(via))
        ps = g.members(m)
        for p in ps[-2:]:
            own = g.ml[p][0] == m
            g.q_mean(m, p, g.rX(p, 2), **(dict(own=True) if own else {}))
            g.q_cov(m, p, p, g.rX(p, 1), g.rX(p, 2), **(dict(own=True) if own else {}))
            X = g.rX(p, 2)
            g.q_fdd(p, X, g.rnoise(2), m if g.r.random() < 0.5 or not own else 0, ["mean", "var", "marginals"])
        g.q_cov(m, ps[-1], ps[0], g.rX(ps[-1], 1), g.rX(ps[0], 2))
    return g.ev


def run(ctx):
    n = ctx.n(80)
    ctx.validate([lifetime(ctx.seed * 100000 + i) for i in range(n)], "what is not needed any more is let go of", kws=[{"drop": True}] * n)
    ctx.validate([rand(ctx.seed * 100000 + i, 14 if ctx.thorough else 9) for i in range(ctx.n(130))],
                 "interleaved measures, with laws asked for again")
