"""Histories of normal random variables on the real code."""
import copy
import signal

import env
import world
from world import B, Dense, Diagonal, World, fl, np, stheno

import matrix

Normal = stheno.Normal


class NormalWorld(World):
    """Events as in spec/Normal.tla."""

    def __init__(self, dtype="float64", backend="numpy"):
        World.__init__(self, dtype, backend)
        self.ns, self.calls = [], []

    # ------------------------------------------------------------- making
    def column(self, v):
        return self.T([[fl(c)] for c in v])

    def mean_of(self, ev):
        f = ev["mform"]
        if f == "zero":
            return 0
        if f == "zerom":
            return matrix.Zero(self.dtype, len(ev["mean"]), 1)
        m = self.column(ev["mean"])
        return Dense(m) if f == "struct" else m

    def var_of(self, ev):
        v, f = [[fl(c) for c in r] for r in ev["var"]], ev["vform"]
        if f == "diag":
            return Diagonal(self.T([v[i][i] for i in range(len(v))]))
        if f == "zero":
            return matrix.Zero(self.dtype, len(v), len(v))
        if f == "const":
            return matrix.Constant(self.T(v[0][0]), len(v), len(v))
        if f == "wood":  # diagonal plus low rank
            d, l = [fl(c) for c in ev["wd"]], [[fl(c)] for c in ev["wl"]]
            return Diagonal(self.T(d)) + matrix.LowRank(self.T(l))
        v = self.T(v)
        return Dense(v) if f == "struct" else v

    def op_new(self, ev):
        if ev["mform"] == "omit":
            n = Normal(self.var_of(ev))
        else:
            n = Normal(self.mean_of(ev), self.var_of(ev))
        self.ns.append(n)

    def diag_of(self, ev):
        return self.T([fl(ev["var"][j][j]) for j in range(len(ev["var"]))])

    def matrix_of(self, ev):
        return self.T([[fl(c) for c in row] for row in ev["A"]])

    def op_lazy(self, ev):
        i = len(self.ns) + 1
        e = dict(ev, mform="zero") if ev["mform"] == "omit" else ev

        def fn(name, make):
            def f():
                self.calls.append({"n": i, "f": name})
                return make()

            return f

        kw = {}
        if "var_diag" in ev["fns"]:
            kw["var_diag"] = fn("var_diag", lambda: self.diag_of(e))
        if "mean_var" in ev["fns"]:
            kw["mean_var"] = fn("mean_var", lambda: (self.mean_of(e), self.var_of(e)))
        if "mean_var_diag" in ev["fns"]:
            kw["mean_var_diag"] = fn("mean_var_diag", lambda: (self.mean_of(e), self.diag_of(e)))
        args = [fn("var", lambda: self.var_of(e))]
        if ev["mform"] != "omit":
            args.insert(0, fn("mean", lambda: self.mean_of(e)))
        self.ns.append(Normal(*args, **kw))

    def const(self, ev):
        c = ev["c"]
        if len(c) > 1 or ev.get("cform") == "col":
            return self.column(c)
        x = fl(c[0])
        f = ev.get("cform", "py")
        return int(x) if f == "int" and x == int(x) else self.T(x) if f == "np" else x

    def op_arith(self, ev):
        a, k = self.N(ev["a"]), ev["k"]
        if k == "n+n":
            r = a + self.N(ev["b"])
        elif k == "n-n":
            r = a - self.N(ev["b"])
        elif k == "n+c":
            r = a + self.const(ev)
        elif k == "c+n":
            r = self.const(ev) + a
        elif k == "n-c":
            r = a - self.const(ev)
        elif k == "c-n":
            r = self.const(ev) - a
        elif k == "n*c":
            r = a * self.const(ev)
        elif k == "c*n":
            r = self.const(ev) * a
        elif k == "n/c":
            r = a / self.const(ev)
        elif k == "-n":
            r = -a
        elif k in ("lmatmul", "rmatmul"):
            A = self.matrix_of(ev)
            r = getattr(a, k)(Dense(A) if ev.get("Aform") == "struct" else A)
        elif k == "diagonalise":
            r = a.diagonalise()
        elif k == "cast":
            r = B.cast(self.dtype, a)
        else:
            raise KeyError(k)
        if not isinstance(r, Normal):
            raise TypeError(f"gave a {type(r).__name__}")
        self.ns.append(r)

    def N(self, i):
        return self.ns[i - 1]

    # ------------------------------------------------------------- asking
    def op_ask(self, ev):
        n, a = self.N(ev["n"]), dict(ev["ask"])
        k = a["a"]
        if k in ("str", "repr"):
            ev["val"] = "ok" if isinstance({"str": str, "repr": repr}[k](n), str) else "no string"
        elif k == "dtype":
            ev["val"] = "ok" if n.dtype == self.dtype and B.dtype(n) == self.dtype else str(n.dtype)
        elif k == "mean_is_zero":
            ev["val"] = "1" if n.mean_is_zero else "0"
        else:
            self._ask(n, a)
            ev["val"] = a["val"]

    def op_pair(self, ev):
        ev["val"] = world.sca(getattr(self.N(ev["a"]), ev["k"])(self.N(ev["b"])))

    def fdd(self, d):
        return self.N(d["n"])

    def op_sample(self, ev):
        ev["form"], ev["ds"], ev["m"] = "fdd", [{"n": ev["n"]}], 0
        n = ev["num"]
        ev["n"], nn = n, ev["n"]
        super().op_sample(ev)
        ev["num"], ev["n"] = n, nn

    def op_illegal(self, ev):
        a, k = self.N(ev["a"]), ev["k"]
        p = stheno.GP(stheno.EQ())
        if k == "n*n":
            a * self.N(ev["b"])
        elif k == "n/n":
            a / self.N(ev["b"])
        elif k == "n+p":
            a + p
        elif k == "p+n":
            p + a
        elif k == "n-p":
            a - p
        elif k == "p-n":
            p - a
        elif k == "n*p":
            a * p
        elif k == "p*n":
            p * a
        elif k == "n+s":
            a + "s"
        elif k == "n*s":
            a * "s"
        elif k == "c/n":
            1.0 / a
        elif k == "kl":
            a.kl(1.0)
        elif k == "w2":
            a.w2(p)
        else:
            raise KeyError(k)

    def step(self, ev):
        self.calls = []
        World.step(self, ev)
        ev["calls"] = self.calls
        return ev

    def run(self, prog):
        trace = []
        for ev in prog:
            ev = self.step(copy.deepcopy(ev))
            trace.append(ev)
            if ev["op"] in ("new", "lazy", "arith") and ev["err"]:
                break
        return trace
