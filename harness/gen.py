"""Programs: a builder that keeps track of which objects exist, and random generation."""
import random
from fractions import Fraction as F

from world_num import rs


def fn(c0="0", c1=(), c2="0"):
    return {"c0": str(c0), "c1": [str(c) for c in c1], "c2": str(c2)}


def pts(rows, form="mat", D=None):
    return {"k": "pts", "x": [[rs(v) for v in r] for r in rows], "form": form, "D": D or (len(rows[0]) if rows else 1)}


def fddx(p, X):
    return {"k": "fdd", "p": p, "x": X}


def tup(*xs):
    return {"k": "tup", "xs": list(xs)}


NONE = {"f": "none"}


def scal(v, **kw):
    return {"f": "scalar", "v": rs(v), **kw}


def nvec(v, **kw):
    return {"f": "vec", "v": [rs(x) for x in v], **kw}


def nmat(v, **kw):
    return {"f": "mat", "v": [[rs(x) for x in r] for r in v], **kw}


class Prog:
    """Builds a program; knows the structure (not the law) of what it builds."""

    def __init__(self, seed=0, D=1):
        self.r = random.Random(seed)
        self.ev = []
        self.D = D
        self.dim = {}  # process -> input dimensionality
        self.outs = {}  # process -> number of outputs
        self.made = {}  # process -> the processes it was made of
        self.kind = {}  # process -> operation that made it
        self.comp = {}  # process -> components of the Cartesian product it is, if it is one
        self.ml = {}  # process -> measures
        self.base = {}  # process -> is it constructed independently?
        self.soft = {}  # process -> values grow quickly (products, warps)
        self.diffable = {}
        self.nm = 0
        self.par = {}
        self.stk = []
        self.np = 0
        self.names = {}
        self.lastbase = {}  # per measure: newest independently constructed process
        self.consts = True  # generate constant kernels
        self.pd = set()  # processes with a covariance that is safely positive definite

    # ------------------------------------------------------------ operations
    def add(self, **ev):
        self.ev.append(ev)
        return ev

    def _p(self, ml, dim, outs=1, soft=0, diffable=True, comp=None, base=False, made=(), kind=""):
        self.np += 1
        p = self.np
        self.made[p] = tuple(made)
        self.kind[p] = kind
        self.ml[p] = list(ml)
        self.dim[p] = dim
        self.outs[p] = outs
        self.soft[p] = soft
        self.diffable[p] = diffable
        self.comp[p] = comp
        self.base[p] = base
        return p

    def measure(self):
        self.add(op="measure")
        self.nm += 1
        self.names[self.nm] = {}
        self.par[self.nm] = 0
        return self.nm

    def members(self, m):
        return [p for p in range(1, self.np + 1) if m in self.ml[p]]

    def gp(self, m, mean=None, kern=None, name="", dim=None, mform=None):
        mean = mean or fn()
        kern = kern or {"k": "rq"}
        ev = dict(op="gp", m=m, mean=mean, kern=kern, name=name)
        if mform:
            ev["mform"] = mform
        home = m or (self.stk[-1] if self.stk else 0)
        if name and home and name in self.names[home]:
            ev["expect_err"] = True
            self.add(**ev)
            return 0
        self.add(**ev)
        if not home:
            self.nm += 1
            home = self.nm
            self.names[home] = {}
            self.par[home] = 0
        p = self._p([home], dim or self.D, base=True, diffable=not has(kern, "delta"))
        if kern["k"] == "rq" or kern["k"] == "sum" and "rq" in (kern["l"]["k"], kern["r"]["k"]) or kern["k"] == "stretch":
            self.pd.add(p)
        self.lastbase[home] = p
        if name:
            self.names[home][name] = p
        return p

    def un(self, p, f, **kw):
        self.add(op="un", p=p, f=f, **kw)
        k = f["k"]
        dim, soft, diffable = self.dim[p], self.soft[p], self.diffable[p]
        if k == "select":
            dim = self.dim[p] if max(f["dims"]) <= self.dim[p] and False else f.get("D", self.D)
        if k == "warp":
            soft += 1
            if f["f"]["k"] == "pair":
                dim = 1
        if k in {"diff", "diff_approx"}:
            diffable = False
        r = self._p(self.ml[p], dim, self.outs[p], soft, diffable, made=[p], kind=k)
        if p in self.pd and k in {"shift", "stretch", "-p", "p+c", "c+p", "p-c", "c-p", "p*c", "c*p", "p/c", "p+f", "f+p", "f-p"}:
            self.pd.add(r)
        return r

    def bin(self, k, p, q):
        if self.ml[p][0] != self.ml[q][0]:
            self.add(op="bin", k=k, p=p, q=q, expect_err=True)
            return 0
        self.add(op="bin", k=k, p=p, q=q)
        ml = [m for m in self.ml[p] if m in self.ml[q]]
        soft = max(self.soft[p], self.soft[q]) if k != "*" else self.soft[p] + self.soft[q] + 1
        return self._p(ml, self.dim[p], self.outs[p], soft, self.diffable[p] and self.diffable[q], made=[p, q], kind=k)

    def cross(self, *ps):
        if any(self.ml[p][0] != self.ml[ps[0]][0] for p in ps):
            self.add(op="cross", ps=list(ps), expect_err=True)
            return 0
        self.add(op="cross", ps=list(ps))
        ml = [m for m in self.ml[ps[0]] if all(m in self.ml[p] for p in ps)]
        return self._p(ml, self.dim[ps[0]], sum(self.outs[p] for p in ps),
                       max(self.soft[p] for p in ps), False, comp=list(ps), made=ps, kind="cross")

    def multi(self, p):
        return self.outs[p] > 1

    def derived(self, p):
        """Was p made of something derived from a Cartesian product? Selections of its inputs are a recorded finding."""
        return any(self.comp[q] is None and any(self.comp[x] for x in self.anc(q)) for q in self.anc(p))

    def compat(self, p, q):
        """Can the code evaluate the covariance of these processes at plain inputs?"""
        return True

    def anc(self, p):
        """All processes that p was made of, itself included."""
        s, todo = set(), [p]
        while todo:
            x = todo.pop()
            if x not in s:
                s.add(x)
                todo += self.made[x]
        return s

    def copy(self, m, p):
        if m not in self.ml[p]:
            self.add(op="copy", m=m, p=p, expect_err=True)
            return 0
        self.add(op="copy", m=m, p=p)
        return self._p([m], self.dim[p], self.outs[p], self.soft[p], self.diffable[p], made=[p], kind="copy")

    def custom(self, m, terms, mean=None, kern=None, right=None):
        ev = dict(op="custom", m=m, terms=[{"c": str(c), "p": p} for c, p in terms], mean=mean or fn(), kern=kern or {"k": "rq"})
        if right:
            ev["right"] = right
        self.add(**ev)
        p = self._p([m], self.dim[terms[0][1]] if terms else self.D, made=[p for _, p in terms], kind="custom", base=True)
        self.lastbase[m] = p
        return p

    def cond(self, m, obs, form="obs", via=None, dot=False):
        ps = [d["p"] for d in obs["parts"]] + [u["p"] for u in obs["us"]]
        ev = dict(op="cond", m=m, obs=obs, form=form)
        if dot:
            ev["dot"] = True
        if via:
            ev["via"] = via
        self.add(**ev)
        self.nm += 1
        m2 = self.nm
        self.names[m2] = {}
        self.par[m2] = m
        for p in range(1, self.np + 1):
            if m in self.ml[p]:
                self.ml[p].append(m2)
        if m in self.lastbase:
            self.lastbase[m2] = 0
        if via:
            self.add(op="viacopy", m=m2, p=via)
            return m2, self._p([m2], self.dim[via], self.outs[via], self.soft[via], self.diffable[via], made=[via], kind="copy")
        return m2

    def name(self, p, name):
        taken = any(self.names[m].get(name, p) != p for m in self.ml[p])
        if taken:
            self.add(op="name", p=p, name=name, expect_err=True)
            return
        self.add(op="name", p=p, name=name)
        for m in self.ml[p]:
            self._setname(m, p, name)

    def mname(self, m, p, name):
        if self.names[m].get(name, p) != p:
            self.add(op="mname", m=m, p=p, name=name, expect_err=True)
            return
        self.add(op="mname", m=m, p=p, name=name)
        self._setname(m, p, name)

    def _setname(self, m, p, name):
        self.names[m] = {n: q for n, q in self.names[m].items() if q != p}
        self.names[m][name] = p

    def enter(self, m):
        self.add(op="enter", m=m)
        self.stk.append(m)

    def exit(self, exc=False):
        self.add(op="exit", m=self.stk.pop(), exc=exc)

    # --------------------------------------------------------------- queries
    def q_mean(self, m, p, X, **kw):
        self.add(op="mean", m=m, p=p, X=X, **kw)

    def q_cov(self, m, p, q, X, Y, **kw):
        self.add(op="cov", m=m, p=p, q=q, X=X, Y=Y, **kw)

    def q_elw(self, m, p, q, X, Y, **kw):
        self.add(op="elw", m=m, p=p, q=q, X=X, Y=Y, **kw)

    def q_fdd(self, p, X, noise=NONE, m=0, asks=("mean", "var"), **kw):
        self.add(op="fdd", m=m, p=p, X=X, noise=noise, asks=[{"a": a} if isinstance(a, str) else dict(a) for a in asks], **kw)
        if m and m in self.ml[p]:
            # `m(fdd)` adds a copy of the process, which the program cannot refer to.
            pass

    def q_sample(self, ds, n, m=0, form="measure", state="explicit", seed=1, ws=(), extra=NONE, **kw):
        self.add(op="sample", m=m, ds=ds, n=n, form=form, state=state, seed=seed, ws=[list(w) for w in ws], extra=extra, **kw)

    # --------------------------------------------------------- random pieces
    def coef(self, nz=True):
        return rs(self.r.choice([F(-2), F(-1, 2), F(1, 2), F(3, 2), F(2), F(-1), F(3, 4), F(-3, 2)]))

    def rfn(self, dim, soft=0):
        r = self.r
        c0 = r.choice(["0", "1", "-1", "1/2", "2"])
        c1 = [r.choice(["0", "1", "-1/2", "1/2", "-1"]) for _ in range(dim)]
        c2 = r.choice(["0", "0", "0", "1/4", "-1/2"])
        f = fn(c0, c1, c2)
        if dim == 1 and c1 != ["0"] and r.random() < 0.3:
            f["raw"] = True  # An output of the rank of the input.
        return f

    def rmean(self, dim):
        r = self.r.random()
        if r < 0.2:
            return fn(), self.r.choice([None, "omit"])
        if r < 0.45:
            return fn(self.r.choice(["1", "-1/2", "2", "-3/2"])), self.r.choice([None, "om", "int"])
        return self.rfn(dim), None

    def rkern(self, dim, depth=0, delta=False):
        r = self.r
        t = r.random()
        if depth >= 2 or t < 0.35:
            k = {"k": "rq"}
        elif t < 0.5:
            k = {"k": "stretch", "c": [r.choice(["1/2", "2", "3/2"])], "of": {"k": "rq"}}
            if dim > 1 and r.random() < 0.5:
                k["c"] = [r.choice(["1/2", "2", "3/2"]) for _ in range(dim)]
        elif t < 0.58:
            k = {"k": "lin"}
        elif t < 0.64 and self.consts:
            k = {"k": "const", "c": r.choice(["1/2", "1", "2"])}
            if depth == 0 and r.random() < 0.5:
                k["num"] = True
        elif t < 0.68 and delta:
            k = {"k": "delta"}
        elif t < 0.82:
            k = {"k": "scale", "c": r.choice(["1/2", "2", "3/2"]), "of": self.rkern(dim, depth + 1, delta)}
        elif t < 0.92:
            k = {"k": "sum", "l": self.rkern(dim, depth + 1, delta), "r": self.rkern(dim, depth + 1, delta)}
        else:
            k = {"k": "prod", "l": self.rkern(dim, depth + 1, delta), "r": self.rkern(dim, depth + 1, delta)}
        return k

    def rgp(self, m, dim=None, name="", pd=False, delta=False):
        dim = dim or self.D
        mean, mform = self.rmean(dim)
        kern = self.rkern(dim, delta=delta)
        if pd or self.r.random() < 0.5:
            kern = {"k": "sum", "l": {"k": "rq"}, "r": kern} if kern["k"] != "rq" else kern
        return self.gp(m, mean, kern, name, dim, mform)

    def rarith(self, p):
        r = self.r
        k = r.choice(["-p", "p+c", "c+p", "p-c", "c-p", "p*c", "c*p", "p/c", "p+f", "f+p", "f-p", "p*f", "f*p"])
        if self.outs[p] > 1:
            k = r.choice(["-p", "p*c", "c*p", "p/c"])
        if self.soft[p] >= 2 and k in {"p*f", "f*p"}:
            k = "c*p"
        if k == "-p":
            f = {"k": k}
        elif k in {"p+f", "f+p", "f-p", "p*f", "f*p"}:
            f = {"k": k, "f": self.rfn(self.dim[p])}
            if k in {"p*f", "f*p"}:
                f["f"]["c2"] = "0"
        else:
            f = {"k": k, "c": self.coef()}
            if r.random() < 0.12:
                f["c"] = r.choice(["1", "-1", "0"] if k in {"p+c", "c+p", "p-c", "c-p"} and self.outs[p] == 1 else ["1", "-1"])
            if r.random() < 0.3:
                f["cform"] = r.choice(["int", "int", "np", "np1"])
        return self.un(p, f)

    def rinput(self, p, kinds=("shift", "stretch", "select", "warp")):
        r = self.r
        k = r.choice(list(kinds))
        D = self.dim[p]
        vals = {"shift": ["1/2", "-1", "1", "-1/4"], "stretch": ["2", "1/2", "-2", "3/2"]}
        if k in vals:
            f = {"k": k, "c": [r.choice(vals[k])]}
            if r.random() < 0.4:
                f["c"] = [r.choice(vals[k]) for _ in range(D)]
                f["arr"] = True
        elif k == "select":
            dims = [r.randint(1, self.D) for _ in range(D)]
            f = {"k": k, "dims": dims, "D": self.D}
        else:
            t = r.random()
            if D == 2 and self.D == 2 and t < 0.4:
                f = {"k": k, "f": {"k": "rev"}}
            elif D == 2 and t < 0.4:
                f = {"k": k, "f": {"k": "pair"}}
            elif self.soft[p] < 2:
                f = {"k": k, "f": {"k": "quad", "a": r.choice(["0", "1/2", "-1/4"]), "b": r.choice(["1", "1/2", "-1"]), "c": r.choice(["0", "1/2", "-1"])}}
            else:
                f = {"k": "shift", "c": ["1/2"]}
        return self.un(p, f)

    def rpoints(self, n, dim=None, form=None, dup=None):
        r = self.r
        dim = dim or self.D
        dup = r.random() < 0.1 if dup is None else dup
        whole = r.random() < 0.1
        rows = []
        while len(rows) < n:
            row = [F(r.randint(-4, 4)) if whole else F(r.randint(-8, 8), 4) for _ in range(dim)]
            if dup and rows and r.random() < 0.6:
                row = list(r.choice(rows))
            if dup or row not in rows:
                rows.append(row)
        if form is None:
            form = "mat"
            if dim == 1 and n > 0:
                form = r.choice(["vec", "mat", "vec"])
                if n == 1 and r.random() < 0.4:
                    form = r.choice(["scalar", "pyfloat"])
        X = pts(rows, form, D=dim)
        if whole and form in {"mat", "vec"} and r.random() < 0.7:
            X["int"] = True  # An array of integers, where there is a choice.
        return X

    def nout(self, p, X):
        if X["k"] == "pts":
            return self.outs[p] * len(X["x"])
        if X["k"] == "fdd":
            return self.nout(X["p"], X["x"])
        return sum(self.nout(p, Y) for Y in X["xs"])

    def rnoise(self, n, diag=False, allow_none=True):
        r = self.r
        t = r.random()
        vals = [F(1, 10), F(1, 4), F(1, 2), F(1), F(3, 10)]
        if t < 0.15 and allow_none:
            return dict(NONE)
        if t < 0.45:
            v = r.choice(vals)
            return scal(v, form=r.choice(["py", "np"]), int=True)
        if t < 0.75 or diag or n == 0:
            return nvec([r.choice(vals) for _ in range(n)], form=r.choice(["", "struct"]))
        L = [[F(r.randint(-2, 2), 4) for _ in range(n)] for _ in range(n)]
        M = [[sum(L[i][k] * L[j][k] for k in range(n)) + (F(1, 5) if i == j else 0) for j in range(n)] for i in range(n)]
        return nmat(M, form=r.choice(["", "struct"]))

    def ry(self, n, nan=0.0):
        r = self.r
        return ["nan" if r.random() < nan else rs(F(r.randint(-8, 8), 4)) for _ in range(n)]

    def rX(self, p, n=None):
        """A plain input of a process."""
        return self.rpoints(self.r.randint(1, 3) if n is None else n, self.dim[p])

    def rpart(self, p, n=None, nan=0.0, diag=False, none=True, X=None):
        X = X or self.rX(p, n)
        N = self.nout(p, X)
        if self.derived(p):
            nan = 0.0  # A recorded finding.
        if X["k"] == "pts" and len({tuple(x) for x in X["x"]}) < len(X["x"]):
            none = False  # Two values at one input, with noise.
        y = self.ry(N, nan)
        if self.r.random() < 0.1 and isinstance(y, list):
            y = [v if v == "nan" else rs(int(F(v))) for v in y]
        yform = self.r.choice(["vec", "col"])
        if yform == "vec" and N == 1 and X.get("form") in {"scalar", "pyfloat"} and self.r.random() < 0.5:
            yform = "scalar"
        return {"p": p, "X": X, "noise": self.rnoise(N, diag, none), "y": y, "yform": yform}

    def robs(self, ps, n=None, nan=0.0, kind="exact", us=None, none=True, again=0.1):
        """A random observation of processes `ps`, through inducing points if `us` are given."""
        diag = kind != "exact"
        parts = [self.rpart(p, n, nan, diag, none and not diag) for p in ps]
        # One distribution object can be observed several times.
        c = [i for i, d in enumerate(parts) if d["noise"]["f"] != "none"]
        if c and self.r.random() < again:
            d = parts[self.r.choice(c)]
            self.nref = getattr(self, "nref", 0) + 1
            d["ref"] = f"part{self.nref}"
            e = dict(d, y=self.ry(self.nout(d["p"], d["X"])))
            parts.insert(self.r.randint(0, len(parts)), e)
        obs = {"kind": kind, "parts": parts, "us": []}
        for u in us or []:
            X = self.rpoints(self.r.randint(1, 3), self.dim[u], dup=False)
            obs["us"].append({"p": u, "X": X, "noise": self.r.choice([dict(NONE), scal(F(1, 10)), dict(NONE)])})
        if len(parts) == 1 and self.r.random() < 0.3:
            obs["flat"] = False
        if len(obs["us"]) == 1 and self.r.random() < 0.3:
            obs["uflat"] = False
        return obs

    def rform(self, obs):
        if obs["kind"] != "exact":
            return "obs", bool(self.r.getrandbits(1))
        if len(obs["parts"]) == 1:
            return self.r.choice(["obs", "two", "pair"]), bool(self.r.getrandbits(1))
        return self.r.choice(["obs", "pairs"]), bool(self.r.getrandbits(1))

    def rcond(self, m, obs, via=None):
        form, dot = self.rform(obs)
        return self.cond(m, obs, form, via, dot)

    # All pairs of processes of a measure, at two small inputs.
    def all_laws(self, m, ps=None, n=2, X=None, Y=None, mean=True, limit=None):
        ps = ps if ps is not None else self.members(m)
        pairs = [(p, q) for p in ps for q in ps]
        if limit and len(pairs) > limit:
            pairs = self.r.sample(pairs, limit)
        for p in ps if mean else []:
            self.q_mean(m, p, X or self.rX(p, n))
        for p, q in pairs:
            self.q_cov(m, p, q, X or self.rX(p, n), Y or self.rX(q, self.r.randint(1, n)))


def has(k, t):
    return isinstance(k, dict) and (k.get("k") == t or any(has(v, t) for v in k.values()))
