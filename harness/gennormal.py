"""Random programs over normal random variables."""
import random
from fractions import Fraction as F

from world_num import rs

NONE = {"f": "none"}
COEF = [F(-2), F(-1), F(-1, 2), F(1, 3), F(1, 2), F(1), F(3, 2), F(2), F(3)]


def smat(M):
    return [[rs(v) for v in r] for r in M]


def mul(A, B):
    return [[sum(a * b for a, b in zip(r, c)) for c in zip(*B)] for r in A]


def tr(A):
    return [list(c) for c in zip(*A)]


def inv(A):
    n = len(A)
    M = [list(r) + [F(i == j) for j in range(n)] for i, r in enumerate(A)]
    for k in range(n):
        p = next(i for i in range(k, n) if M[i][k])
        M[k], M[p] = M[p], M[k]
        M[k] = [v / M[k][k] for v in M[k]]
        for i in range(n):
            if i != k:
                M[i] = [v - M[i][k] * w for v, w in zip(M[i], M[k])]
    return [r[n:] for r in M]


class NProg:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.ev, self.dims = [], []
        self.const = set()  # Normals with constant variances, which the matrix library cannot invert.

    def add(self, **ev):
        self.ev.append(ev)

    def vecr(self, n):
        return [self.r.choice(COEF) for _ in range(n)]

    def spd(self, n, d=F(1, 2)):
        L = [[self.r.choice(COEF) if i >= j and self.r.random() < 0.7 else F(0) for j in range(n)] for i in range(n)]
        M = mul(L, tr(L))
        for i in range(n):
            M[i][i] += d * self.r.choice([1, 1, 2])
        return M

    def root(self, n):
        """A well-conditioned symmetric positive definite matrix."""
        M = [[F(0)] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                M[i][j] = M[j][i] = self.r.choice([F(0), F(1, 4), F(-1, 4), F(1, 2), F(-1, 2)])
        for i in range(n):
            M[i][i] = F(1, 2) * self.r.choice([1, 1, 2]) + sum(abs(v) for v in M[i])
        return M

    def new(self, mean, var, mform="col", vform="np", op="new", fns=(), **kw):
        e = dict(op=op, mean=[rs(v) for v in mean], var=smat(var), mform=mform, vform=vform, **kw)
        if op == "lazy":
            e["fns"] = list(fns)
        self.add(**e)
        self.dims.append(len(mean))
        if vform in ("const", "zero"):
            self.const.add(len(self.dims))
        return len(self.dims)

    def rnew(self, n, lazy=0.3, pd=False):
        """A random normal."""
        r, kw = self.r, {}
        vform = r.choice(["np", "np", "struct", "diag", "wood"] + ([] if pd else ["const", "zero"]))
        if vform == "diag":
            v = self.vecr(n)
            var = [[abs(v[i]) if i == j else F(0) for j in range(n)] for i in range(n)]
        elif vform == "wood":
            d, l = [abs(v) for v in self.vecr(n)], self.vecr(n)
            var = [[l[i] * l[j] + (d[i] if i == j else 0) for j in range(n)] for i in range(n)]
            kw = dict(wd=[rs(v) for v in d], wl=[rs(v) for v in l])
        elif vform == "const":
            c = abs(r.choice(COEF))
            var = [[c] * n for _ in range(n)]
        elif vform == "zero":
            var = [[F(0)] * n for _ in range(n)]
        else:
            var = self.spd(n)
        op = "lazy" if r.random() < lazy else "new"
        mform = r.choice(["col", "col", "col", "struct", "zero", "omit", "zerom"])
        mean = self.vecr(n) if mform in ("col", "struct") else [F(0)] * n
        fns = r.sample(["var_diag", "mean_var", "mean_var_diag"], r.randint(0, 3)) if op == "lazy" else ()
        return self.new(mean, var, mform, vform, op, fns, **kw)

    def arith(self, k, a, dim=None, **kw):
        self.add(op="arith", k=k, a=a, **kw)
        self.dims.append(dim or self.dims[a - 1])
        if a in self.const and kw.get("b", a) in self.const:
            self.const.add(len(self.dims))
        return len(self.dims)

    def rarith(self, a=None):
        r = self.r
        a = a or r.randint(1, len(self.dims))
        n = self.dims[a - 1]
        k = r.choice(["n+n", "n+n", "n-n", "n+c", "c+n", "n-c", "c-n", "n*c", "c*n", "n/c", "-n", "lmatmul", "rmatmul", "diagonalise", "cast"])
        if k in ("n+n", "n-n"):
            return self.arith(k, a, b=r.choice([i + 1 for i, d in enumerate(self.dims) if d == n]))
        if "c" in k and k != "cast":
            c = [rs(v) for v in (self.vecr(n) if r.random() < 0.4 else self.vecr(1))]
            return self.arith(k, a, c=c, cform=r.choice(["py", "int", "np"]) if n > 1 or len(c) > 1 else r.choice(["py", "int", "np", "col"]))
        if "matmul" in k:
            m = r.randint(1, 4)
            A = [[self.r.choice(COEF + [F(0)]) for _ in range(n)] for _ in range(m)]
            if k == "rmatmul":
                A = tr(A)
            return self.arith(k, a, m, A=smat(A), Aform=r.choice(["np", "np", "struct"]))
        return self.arith(k, a)

    ASKS = ["mean", "var", "var_diag", "mean_var", "marginals", "bounds", "dim", "m2", "diagonalise", "entropy", "str", "repr", "dtype", "mean_is_zero", "logpdf"]

    def ask(self, n, a=None):
        a = a or self.r.choice([q for q in self.ASKS if n not in self.const or q not in ("logpdf", "entropy")])
        d = {"a": a}
        if a == "logpdf":
            cols = self.r.choice([1, 1, 2, 3])
            y = [[rs(v) for v in self.vecr(self.dims[n - 1])] for _ in range(cols)]
            if cols == 1 and self.r.random() < 0.3:
                y[0][self.r.randrange(len(y[0]))] = "nan"
            d.update(y=y, scalar=cols == 1, yform=self.r.choice(["vec", "col"]))
        self.add(op="ask", n=n, ask=d)

    def pair(self, k, a, b, R=(), T=()):
        if {a, b} & self.const:
            return
        self.add(op="pair", k=k, a=a, b=b, R=smat(R), T=smat(T))

    def sample(self, n, num, noise=NONE, state="explicit", ws=(), **kw):
        self.add(op="sample", n=n, num=num, extra=noise, state=state, seed=self.r.randint(0, 999), ws=list(ws), **kw)
