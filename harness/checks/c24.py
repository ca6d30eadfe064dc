"""Batched computation."""
import engine
import random

from families import *
from gen import has
from gennormal import COEF, NProg, rs, smat, tr
from fractions import Fraction as F

WORLD = "batchworld.BatchWorld"
N = 20000
BATCHES = [(1,), (2,), (3,), (5,), (2, 2), (1, 2), (2, 1), (1, 1), (3, 2)]


class BProg(Prog):
    """A program with batched inputs and data."""

    def __init__(self, seed, D, nb):
        Prog.__init__(self, seed, D)
        self.nb = nb

    def each(self, f):
        return {"b": [f() for _ in range(self.nb)]}

    def rpoints(self, n, dim=None, form=None, dup=None):
        xs = [Prog.rpoints(self, n, dim, "mat", dup=False)["x"] for _ in range(self.nb)]
        return {"k": "pts", "x": {"b": xs}, "form": "mat", "D": dim or self.D, "n": n}

    def nout(self, p, X):
        if X["k"] == "pts":
            return self.outs[p] * X["n"]
        return Prog.nout(self, p, X)

    def rX(self, p, n=None):
        if self.comp[p] and self.r.random() < 0.4:
            return self.structured(p)
        return Prog.rX(self, p, n)

    def structured(self, c, depth=0):
        t = self.r.random()
        if not self.comp[c] or depth > 1 or t < 0.2:
            return Prog.rX(self, c, self.r.randint(1, 2))
        if t < 0.5:
            q = self.r.choice(self.comp[c])
            return fddx(q, self.structured(q, depth + 1))
        return tup(*[self.structured(c, depth + 1) for _ in range(self.r.randint(1, 3))])

    def ry(self, n, nan=0.0):
        return self.each(lambda: Prog.ry(self, n))

    def rnoise(self, n, diag=False, allow_none=True):
        no = Prog.rnoise(self, n, diag, allow_none)
        if no["f"] == "vec":
            no["form"] = "struct"
        if no["f"] in ("vec", "mat") and self.r.random() < 0.6:
            no["v"] = self.each(lambda: self.like(n, no["f"]))
        return no

    def like(self, n, f):
        while True:
            no = Prog.rnoise(self, n, f == "vec", False)
            if no["f"] == f:
                return no["v"]

    def rkern(self, dim, depth=0, delta=False):
        # The matrix library adds batched low-rank and constant matrices incorrectly:
        # a program has linear or constant kernels, not both.
        k = Prog.rkern(self, dim, depth, delta)
        while has(k, "const" if self.nb % 2 else "lin"):
            k = Prog.rkern(self, dim, depth, delta)
        return k

    def rpart(self, *a, **kw):
        return dict(Prog.rpart(self, *a, **kw), yform="col")


def rand(seed):
    r = random.Random(seed)
    batch = r.choice(BATCHES)
    nb = batch[0] * (batch[1] if len(batch) > 1 else 1)
    g = BProg(seed, r.choice([1, 1, 2]), nb)
    m = g.measure()
    for _ in range(g.r.randint(1, 3)):
        g.rgp(m, pd=True)
    grow(g, m, g.r.randint(1, 3), prod=0.08)
    if g.r.random() < 0.4:
        p = g.r.choice([p for p in g.members(m) if g.outs[p] == 1])
        g.cross(p, g.r.choice(same_dim(g, p, g.members(m))))
    cur = m
    for stage in range(g.r.choice([1, 2, 2, 3])):
        ask(g, cur)
        if stage == 2:
            break
        c = [p for p in g.members(cur) if g.soft[p] < 1]
        kind = g.r.choice(["exact", "exact", "exact", "vfe", "fitc", "dtc"])
        ps = g.r.sample(c, min(len(c), g.r.choice([1, 1, 2])))
        us = None
        if kind != "exact":
            us = [g.r.choice([p for p in c if p in g.pd] or c)]
        obs = g.robs(ps, g.r.randint(1, 2), kind=kind, us=us, none=False)
        if kind != "exact":
            g.add(op="elbo", m=cur, obs=obs, form=g.r.choice(["elbo", "logpdf"]))
        cur = g.rcond(cur, obs)
    return g.ev, batch


ASKS = ["mean", "var", "var_diag", "mean_var", "marginals", "bounds", "dim"]


def ask(g, m):
    ps = [p for p in g.members(m) if g.soft[p] < 2]
    for _ in range(4):
        p, q = g.r.choice(ps), g.r.choice(ps)
        t = g.r.random()
        n = g.r.choice([1, 2, 2, 3, 3, 6])
        if t < 0.15:
            g.q_mean(m, p, g.rX(p, n))
        elif t < 0.3:
            X, Y = g.rX(p, n), g.rX(q, g.r.randint(1, 3))
            g.q_cov(m, p, q, X, Y)
            g.q_cov(m, q, p, Y, X)
        elif t < 0.36:
            X = g.rX(p, n)
            g.q_elw(m, p, p, X, X, onearg=True)
        elif t < 0.6:
            X = g.rX(p, n)
            no = g.rnoise(g.nout(p, X))
            a = g.r.sample(ASKS, 3)
            if no["f"] != "none":
                a.append({"a": "entropy"})
                cols = g.r.choice([1, 1, 2])
                y = g.each(lambda: [Prog.ry(g, g.nout(p, X)) for _ in range(cols)])
                a.append({"a": "logpdf", "y": y, "scalar": cols == 1, "yform": "col"})
            g.q_fdd(p, X, no, m if m not in g.ml[p][:1] or g.r.random() < 0.3 else 0, asks=a)
        elif t < 0.8:
            obs = g.robs([p, q][: g.r.choice([1, 2])], n, none=False)
            form = g.r.choice(["obs", "two", "fdd"] if len(obs["parts"]) == 1 else ["obs", "pairs"])
            g.add(op="logpdf", m=m, obs=obs, form=form)
        else:
            ds = [{"p": x, "X": (X := g.rX(x, n)), "noise": g.rnoise(g.nout(x, X))} for x in [p, q][: g.r.choice([1, 2])]]
            k = sum(g.nout(e["p"], e["X"]) for e in ds)
            num = g.r.choice([1, 2, N])
            g.q_sample(ds, num, m=m, form=g.r.choice(["fdd", "measure"]) if len(ds) == 1 else "measure",
                       state=g.r.choice(["explicit", "global"]), seed=g.r.randint(0, 999), ws=[[g.coef() for _ in range(k)]],
                       omit=num == 1 and g.r.random() < 0.5)


class BNProg(NProg):
    """A program over batches of normals: one program for every element, of the same shape."""

    def each(self, f):
        vs = [f() for _ in range(self.nb)]
        if isinstance(vs[0], tuple):
            return [{"b": [v[i] for v in vs]} for i in range(len(vs[0]))]
        return {"b": vs}

    def rnew(self, n):
        r, kw = self.r, {}
        vform = r.choice(["np", "np", "struct", "diag", "wood"])
        op = "lazy" if r.random() < 0.3 else "new"
        mform = r.choice(["col", "col", "struct", "zero", "omit"])
        mean = self.each(lambda: [rs(v) for v in (self.vecr(n) if mform in ("col", "struct") else [F(0)] * n)])
        if vform == "wood":
            def wood():
                d, l = [abs(v) for v in self.vecr(n)], self.vecr(n)
                var = [[l[i] * l[j] + (d[i] if i == j else 0) for j in range(n)] for i in range(n)]
                return smat(var), [rs(v) for v in d], [rs(v) for v in l]

            var, kw["wd"], kw["wl"] = self.each(wood)
        elif vform == "diag":
            def diag():
                v = self.vecr(n)
                return smat([[abs(v[i]) if i == j else F(0) for j in range(n)] for i in range(n)])

            var = self.each(diag)
        else:
            var = self.each(lambda: smat(self.spd(n)))
        if op == "lazy":
            kw["fns"] = r.sample(["var_diag", "mean_var", "mean_var_diag"], r.randint(0, 3))
        self.add(op=op, mean=mean, var=var, mform=mform, vform=vform, **kw)
        self.dims.append(n)
        return len(self.dims)

    def rarith(self):
        r = self.r
        a = r.randint(1, len(self.dims))
        n = self.dims[a - 1]
        k = r.choice(["n+n", "n-n", "n+c", "c+n", "n-c", "c-n", "n*c", "c*n", "n/c", "-n", "lmatmul", "rmatmul", "diagonalise", "cast"])
        if k in ("n+n", "n-n"):
            return self.arith(k, a, b=r.choice([i + 1 for i, d in enumerate(self.dims) if d == n]))
        if "c" in k and k != "cast":
            if r.random() < 0.4:
                return self.arith(k, a, c=self.each(lambda: [rs(v) for v in self.vecr(n)]))
            return self.arith(k, a, c=[rs(v) for v in self.vecr(1)], cform=r.choice(["py", "int", "np"]))
        if "matmul" in k:
            m = r.randint(1, 4)

            def A():
                A = [[r.choice(COEF + [F(0)]) for _ in range(n)] for _ in range(m)]
                return smat(tr(A) if k == "rmatmul" else A)

            return self.arith(k, a, m, A=A() if r.random() < 0.4 else self.each(A), Aform="np")
        return self.arith(k, a)

    def ask(self, n, a=None):
        a = a or self.r.choice([q for q in self.ASKS if q not in ("str", "repr", "dtype", "mean_is_zero")])
        d = {"a": a}
        if a == "logpdf":
            cols = self.r.choice([1, 1, 2, 3])
            y = self.each(lambda: [[rs(v) for v in self.vecr(self.dims[n - 1])] for _ in range(cols)])
            d.update(y=y, scalar=cols == 1, yform="col")
        self.add(op="ask", n=n, ask=d)


def normals(seed):
    g = BNProg(seed)
    batch = g.r.choice(BATCHES)
    g.nb = batch[0] * (batch[1] if len(batch) > 1 else 1)
    for _ in range(g.r.randint(2, 3)):
        g.rnew(g.r.choice([1, 2, 2, 3]))
    for _ in range(g.r.randint(2, 6)):
        a = g.rarith()
        for _ in range(2):
            g.ask(a)
        b = g.r.choice([i + 1 for i, d in enumerate(g.dims) if d == g.dims[a - 1]])
        for x, y in ((a, b), (b, a)):
            g.pair("kl", x, y)
            if g.dims[a - 1] < 3:
                g.pair("w2", x, y)
    if g.r.random() < 0.3:
        a = g.r.randint(1, len(g.dims))
        g.sample(a, N, ws=[[rs(v) for v in g.vecr(g.dims[a - 1])]], state=g.r.choice(["explicit", "global"]))
    for a in range(1, len(g.dims) + 1):
        g.ask(a, "mean_var")
    return g.ev, batch


def batched(ctx, jobs, label, world=WORLD, judge_kw=None):
    """Run batched programs; every element is a trace by itself."""
    progs, kws = [j[0] for j in jobs], [dict(batch=j[1]) for j in jobs]
    res = engine.execute(progs, kws, world=world)
    traces = [t for ts in res for t in ts]
    idx = [(i, b) for i, ts in enumerate(res) for b in range(len(ts))]
    ctx.judge(traces, label, [progs[i] for i, _ in idx], [dict(kws[i], pick=b) for i, b in idx], world=world,
              judge_kw=judge_kw)


def run(ctx):
    batched(ctx, [rand(ctx.seed * 100000 + i) for i in range(ctx.n(150))], "random batched programs")
    batched(ctx, [normals(ctx.seed * 100000 + i) for i in range(ctx.n(120))], "random batches of normals",
            "batchworld.BatchNormalWorld", {"module": "NormalTrace"})
