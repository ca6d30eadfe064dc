"""Execute programs (lists of events) on the real stheno and record what happened.

A program is a list of events as in spec/Stheno.tla, with extra fields that say in which
of the documented forms a call is made. `World.run` fills in `err`, `home`, `val`, ...
"""
import gc
import math
import signal
import weakref
from fractions import Fraction

import env
from world_num import rs

stheno = env.load()
import lab as B  # noqa: E402
import mlkernels as mk  # noqa: E402
import numpy as np  # noqa: E402
from matrix import Dense, Diagonal, AbstractMatrix  # noqa: E402

from stheno import GP, Measure, FDD, Obs, PseudoObs, PseudoObsDTC, PseudoObsFITC, cross  # noqa: E402

OBS = {"exact": Obs, "vfe": PseudoObs, "fitc": PseudoObsFITC, "dtc": PseudoObsDTC}


# ------------------------------------------------------------------ numbers
def fl(s):
    return float("nan") if s == "nan" else float(Fraction(s))


def out(x):
    """A float as an exact rational string, rounded to 15 significant digits."""
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return rs(Fraction("%.15g" % x))


def arr(x):
    """Any backend's tensor or structured matrix as a NumPy array."""
    return np.asarray(B.to_numpy(B.dense(x)), dtype=float)


def shape_err(x, want):
    return f"shape {tuple(np.shape(x))}, not {want}"


class Bad(Exception):
    """A result of the wrong shape."""


def mat(x):
    x = arr(x)
    if x.ndim != 2:
        raise Bad(f"rank {x.ndim} instead of matrix")
    return [[out(v) for v in row] for row in x]


def vec(x):
    x = arr(x)
    if x.ndim != 1:
        raise Bad(f"rank {x.ndim} instead of vector")
    return [out(v) for v in x]


def sca(x):
    x = arr(x)
    if x.ndim != 0:
        raise Bad(f"rank {x.ndim} instead of scalar")
    return out(x)


def backend(name):
    """Conversion of NumPy arrays to arrays of a backend."""
    if name == "numpy":
        return lambda a: a
    if name == "autograd":
        import stheno.autograd  # noqa: F401

        return lambda a: a
    if name == "tf":
        import stheno.tensorflow  # noqa: F401
        import tensorflow as tf

        return tf.constant
    if name == "torch":
        import stheno.torch  # noqa: F401
        import torch

        torch.set_num_threads(1)
        return torch.tensor
    if name == "jax":
        import stheno.jax  # noqa: F401
        import jax
        import jax.numpy as jnp

        jax.config.update("jax_enable_x64", True)
        return jnp.array
    raise KeyError(name)


EVENT_S = 120  # No call takes longer than this.


class TooLong(Exception):
    """A call did not finish."""


def _alarm(*_):
    raise TooLong(f"not finished after {EVENT_S} s")


signal.signal(signal.SIGALRM, _alarm)


class World:
    def __init__(self, dtype="float64", backend="numpy", drop=False):
        self.ms = []
        self.ps = []
        self.drop = drop  # Let go of processes and measures that the program does not mention again.
        self.backend = backend
        self.dtype = getattr(np, dtype)
        self.integers = backend == "numpy" and dtype == "float64"  # Give arrays of integers where all numbers are.
        # Turns a NumPy array into an array of the backend.
        self._conv = globals()["backend"](backend)
        self.cache = {}
        # Copies of all arrays given to the code, to see that they do not change.
        self.given = []

    def conv(self, a):
        a = np.asarray(a)
        r = self._conv(a)
        if isinstance(r, np.ndarray):
            self.given.append((r, r.copy()))
        return r

    # ------------------------------------------------------------ arguments
    def T(self, a):
        return self.conv(np.array(a, dtype=self.dtype))

    def pts(self, X):
        a = np.array([[fl(v) for v in row] for row in X["x"]], dtype=self.dtype)
        form = X.get("form", "mat")
        if form == "vec":
            a = a[:, 0]
        elif form == "scalar":
            a = a[0, 0]
        elif len(X["x"]) == 0:
            a = np.zeros((0, X.get("D", 1)), dtype=self.dtype)
        if form == "pyfloat":
            return float(a[0, 0])
        if form == "pyint":
            return int(a[0, 0])
        if X.get("int") and self.integers:
            a = a.astype(np.int64)
        return self.conv(a)

    def inp(self, X):
        if X["k"] == "pts":
            return self.pts(X)
        elif X["k"] == "fdd":
            return self.P(X["p"])(self.inp(X["x"]))
        else:
            return tuple(self.inp(Y) for Y in X["xs"])

    def noise(self, no):
        f = no["f"]
        form = no.get("form", "")
        if f == "none":
            return None
        if f == "scalar":
            v = fl(no["v"])
            if form == "py":
                return int(v) if no.get("int") and v == int(v) else v
            return self.T(v)
        if f == "vec":
            v = self.T([fl(s) for s in no["v"]])
            if self.integers and v.size and all("/" not in s for s in no["v"]):
                v = v.astype(np.int64)
            return Diagonal(v) if form == "struct" else v
        v = self.T([[fl(s) for s in r] for r in no["v"]])
        return Dense(v) if form == "struct" else v

    def data(self, y, form="vec"):
        a = np.array([fl(s) for s in y], dtype=self.dtype)
        if self.integers and a.size and all("/" not in s and s != "nan" for s in y):
            a = a.astype(np.int64)
        if form == "scalar":
            return self.conv(a[0])
        if form == "col":
            return self.conv(a[:, None])
        if form == "struct":
            return Dense(self.conv(a[:, None]))
        return self.conv(a)

    def fn(self, f):
        c0, c1, c2 = fl(f["c0"]), [fl(c) for c in f["c1"]], fl(f["c2"])
        if f.get("raw"):
            return lambda x: c0 + c1[0] * x + c2 * x**2

        def g(x):
            while B.rank(x) < 2:
                x = B.expand_dims(x, axis=-1)
            r = 0 * x[..., :1] + c0
            for j, c in enumerate(c1):
                if c:
                    r = r + c * x[..., j : j + 1]
            if c2:
                r = r + c2 * x[..., :1] ** 2
            return r

        return g

    def meanfn(self, f, form=""):
        if not f["c1"] and f["c2"] == "0":
            c = fl(f["c0"])
            if form == "om":
                return c * mk.OneMean()
            return int(c) if form == "int" and c == int(c) else c
        return self.fn(f)

    def kern(self, k):
        t = k["k"]
        if t == "const":
            return fl(k["c"]) * mk.OneKernel() if not k.get("num") else fl(k["c"])
        if t == "lin":
            return mk.Linear()
        if t == "rq":
            return mk.RQ(1)
        if t == "delta":
            return mk.Delta()
        if t == "scale":
            return fl(k["c"]) * self.kern(k["of"])
        if t == "stretch":
            c = [fl(v) for v in k["c"]]
            return self.kern(k["of"]).stretch(c[0] if len(c) == 1 else self.T(c))
        if t == "sum":
            return self.kern(k["l"]) + self.kern(k["r"])
        if t == "prod":
            return self.kern(k["l"]) * self.kern(k["r"])
        raise KeyError(t)

    def warp(self, f):
        if f["k"] == "quad":
            a, b, c = fl(f["a"]), fl(f["b"]), fl(f["c"])
            return lambda x: a * x**2 + b * x + c
        if f["k"] == "rev":
            return lambda x: x[..., ::-1] if not hasattr(x, "flip") else x.flip(-1)

        def pair(x):
            while B.rank(x) < 2:
                x = B.expand_dims(x, axis=-1)
            return B.concat(x, x**2, axis=-1)

        return pair

    def P(self, p):
        return held(self.ps[p - 1])

    def M(self, m):
        return held(self.ms[m - 1])

    def mid(self, m):
        for i, n in enumerate(self.ms):
            if held(n) is m:
                return i + 1
        return 0

    def pid(self, p):
        for i, q in enumerate(self.ps):
            if held(q) is p:
                return i + 1
        return 0

    def fdd(self, d):
        if "ref" in d:  # Re-use one object for all mentions of this reference.
            key = ("fdd", d["ref"])
            if key not in self.cache:
                self.cache[key] = self._fdd(d)
            return self.cache[key]
        return self._fdd(d)

    def _fdd(self, d):
        p, x, no = self.P(d["p"]), self.inp(d["X"]), self.noise(d["noise"])
        if d.get("ctor"):
            return FDD(p, x) if no is None else FDD(p, x, no)
        return p(x) if no is None else p(x, no)

    def parts(self, obs):
        return [(self.fdd(d), self.data(d["y"], d.get("yform", "vec"))) for d in obs["parts"]]

    def obs(self, obs):
        if "ref" in obs:
            key = ("obs", obs["ref"])
            if key not in self.cache:
                self.cache[key] = self._obs(obs)
            return self.cache[key]
        return self._obs(obs)

    def _obs(self, obs):
        parts = self.parts(obs)
        cls = OBS[obs["kind"]]
        if obs.get("cls"):
            cls = getattr(stheno, obs["cls"])
        args = parts[0] if len(parts) == 1 and obs.get("flat", True) else tuple(parts)
        if obs["kind"] == "exact":
            return cls(*args)
        us = [self.fdd(u) for u in obs["us"]]
        return cls(us[0] if len(us) == 1 and obs.get("uflat", True) else tuple(us), *args)

    # ----------------------------------------------------------- operations
    def new(self, p, ev):
        m = p.measure
        if not self.mid(m):
            self.ms.append(m)
        self.ps.append(p)
        ev["home"] = self.mid(m)

    def op_measure(self, ev):
        self.ms.append(Measure())

    def op_gp(self, ev):
        kw = {}
        if ev["m"]:
            kw["measure"] = self.M(ev["m"])
        if ev["name"]:
            kw["name"] = ev["name"]
        mean, kern = self.meanfn(ev["mean"], ev.get("mform", "")), self.kern(ev["kern"])
        if ev.get("mform") == "omit":
            p = GP(kern, **kw)
        else:
            p = GP(mean, kern, **kw)
        self.new(p, ev)

    def op_un(self, ev):
        p, f = self.P(ev["p"]), ev["f"]
        k = f["k"]
        if "c" in f and k in {"p+c", "c+p", "p-c", "c-p", "p*c", "c*p", "p/c"}:
            c = fl(f["c"])
            if f.get("cform") == "int" and c == int(c):
                c = int(c)
            elif f.get("cform") == "np":
                c = self.T(c)
            elif f.get("cform") == "np1":
                c = self.T(c) if self.backend != "numpy" else np.float64(c)
        if k == "-p":
            r = -p
        elif k == "p+c":
            r = p + c
        elif k == "c+p":
            r = c + p
        elif k == "p-c":
            r = p - c
        elif k == "c-p":
            r = c - p
        elif k == "p*c":
            r = p * c
        elif k == "c*p":
            r = c * p
        elif k == "p/c":
            r = p / c
        elif k == "p+f":
            r = p + self.fn(f["f"])
        elif k == "f+p":
            r = self.fn(f["f"]) + p
        elif k == "f-p":
            r = self.fn(f["f"]) - p
        elif k == "p*f":
            r = p * self.fn(f["f"])
        elif k == "f*p":
            r = self.fn(f["f"]) * p
        elif k in {"shift", "stretch"}:
            c = [fl(v) for v in f["c"]]
            c = c[0] if len(c) == 1 and not f.get("arr") else self.T(c)
            r = getattr(p, k)(c)
        elif k == "select":
            r = p.select(*[d - 1 for d in f["dims"]])
        elif k == "warp":
            r = p.transform(self.warp(f["f"]))
        elif k == "diff":
            r = p.diff() if f["d"] == 1 and f.get("dflt") else p.diff(f["d"] - 1)
        elif k == "diff_approx":
            r = p.diff_approx(**f.get("kw", {}))
        else:
            raise KeyError(k)
        self.new(r, ev)

    def op_bin(self, ev):
        p, q = self.P(ev["p"]), self.P(ev["q"])
        r = p + q if ev["k"] == "+" else p - q if ev["k"] == "-" else p * q
        self.new(r, ev)

    def op_cross(self, ev):
        self.new(cross(*[self.P(p) for p in ev["ps"]]), ev)

    def op_copy(self, ev):
        self.new(self.M(ev["m"])(self.P(ev["p"])), ev)

    def op_custom(self, ev):
        m = self.M(ev["m"])
        terms = [(fl(t["c"]), self.P(t["p"])) for t in ev["terms"]]
        base = self.kern(ev["kern"])
        mean = self.meanfn(ev["mean"])
        mean = mean * mk.OneMean()
        kern = base
        for c, p in terms:
            mean = mean + c * m.means[p]
            for d, q in terms:
                kern = kern + c * d * m.kernels[p, q]

        def left(j):
            r = mk.ZeroKernel()
            for c, p in terms:
                r = r + c * m.kernels[p, j]
            return r

        def right(i):
            r = mk.ZeroKernel()
            for c, p in terms:
                r = r + c * m.kernels[i, p]
            return r

        if ev.get("right") == "both":
            p = m.add_gp(mean, kern, left, right)
        elif ev.get("right") == "kw":
            p = m.add_gp(mean=mean, kernel=kern, left_rule=left, right_rule=right)
        else:
            p = m.add_gp(mean, kern, left)
        self.new(p, ev)

    def op_cond(self, ev):
        m, obs, form = self.M(ev["m"]), ev["obs"], ev["form"]
        tgt = self.P(ev["via"]) if "via" in ev else m
        if form == "obs":
            o = self.obs(obs)
            r = tgt.condition(o) if ev.get("dot") else tgt | o
        else:
            parts = self.parts(obs)
            if form == "two":
                r = tgt.condition(*parts[0])
            elif form == "pair":
                r = tgt.condition(parts[0]) if ev.get("dot") else tgt | parts[0]
            elif form == "pairs":
                r = tgt.condition(*parts) if ev.get("dot") else tgt | tuple(parts)
            else:
                raise KeyError(form)
        # Through a process the posterior process is given, which is a copy in the
        # posterior; the next event of the program is that copy.
        if "via" in ev:
            self.ms.append(r.measure)
            self.pending = r  # Held until the next event.
        else:
            if not isinstance(r, Measure):
                raise Bad(f"conditioning gave a {type(r).__name__}")
            self.ms.append(r)


    def op_viacopy(self, ev):
        p, self.pending = self.pending, None
        ev["op"] = "copy"
        self.new(p, ev)

    def op_name(self, ev):
        self.P(ev["p"]).name = ev["name"]

    def op_mname(self, ev):
        self.M(ev["m"]).name(self.P(ev["p"]), ev["name"])

    def op_enter(self, ev):
        m = self.M(ev["m"])
        r = type(m).__enter__(m)
        if r is not m:
            raise Bad("with-target is not the measure")

    def op_exit(self, ev):
        m = self.M(ev["m"])
        if ev["exc"]:
            try:
                raise ValueError("from the block")
            except ValueError as e:
                r = type(m).__exit__(m, type(e), e, e.__traceback__)
            ev["swallowed"] = bool(r)
        else:
            type(m).__exit__(m, None, None, None)
            ev["swallowed"] = False

    # -------------------------------------------------------------- queries
    def op_mean(self, ev):
        m, p = self.M(ev["m"]), self.P(ev["p"])
        mean = p.mean if ev.get("own") else m.means[p]
        ev["val"] = mat(mean(self.inp(ev["X"])))

    def op_cov(self, ev):
        m, p, q = self.M(ev["m"]), self.P(ev["p"]), self.P(ev["q"])
        if ev.get("own"):
            k = p.kernel
        elif ev["p"] == ev["q"] and ev.get("single"):
            k = m.kernels[p]
        else:
            k = m.kernels[p, q]
        x = self.inp(ev["X"])
        ev["val"] = mat(k(x) if ev.get("onearg") else k(x, self.inp(ev["Y"])))

    def op_rule(self, ev):
        """Covariances of a process that is added with explicit rules."""
        m, p, i = self.M(ev["m"]), self.P(ev["p"]), self.P(ev["i"])
        lc, rc = fl(ev["lc"]), fl(ev["rc"])
        calls = []

        def left(j):
            calls.append("l")
            return lc * m.kernels[p, j]

        def right(j):
            calls.append("r")
            return rc * m.kernels[j, p]

        args = m.means[p], m.kernels[p], left
        if ev.get("form") == "kw":
            q = m.add_gp(mean=args[0], kernel=args[1], left_rule=left, right_rule=right)
        else:
            q = m.add_gp(*args) if ev["rc"] == ev["lc"] and ev.get("form") == "none" else m.add_gp(*args, right)
        if ev["side"].endswith("2"):
            q = 2 * q + self.P(ev["s"])
        if ev["side"].startswith("left"):
            ev["val"] = mat(m.kernels[q, i](self.inp(ev["X"]), self.inp(ev["Y"])))
        else:
            ev["val"] = mat(m.kernels[i, q](self.inp(ev["Y"]), self.inp(ev["X"])))

    def op_elw(self, ev):
        m, p, q = self.M(ev["m"]), self.P(ev["p"]), self.P(ev["q"])
        k = m.kernels[p, q]
        x = self.inp(ev["X"])
        ev["val"] = mat(k.elwise(x) if ev.get("onearg") else k.elwise(x, self.inp(ev["Y"])))

    def columns(self, a):
        y = np.array([[fl(s) for s in col] for col in a["y"]], dtype=self.dtype).T
        if a["scalar"] and a.get("yform", "vec") == "vec":
            y = y[:, 0]
        return self.conv(y)

    def _asks(self, d, asks):
        for a in asks:
            try:
                self._ask(d, a)
            except Exception as e:
                a["err"] = errname(e)
                a.pop("val", None)

    def _ask(self, d, a):
        k = a["a"]
        if k == "mean":
            a["val"] = mat(d.mean)
        elif k == "var":
            a["val"] = mat(d.var)
        elif k == "var_diag":
            a["val"] = vec(d.var_diag)
        elif k == "mean_var":
            m, v = d.mean_var
            a["val"] = [mat(m), mat(v)]
        elif k == "marginals":
            m, v = d.marginals()
            a["val"] = [vec(m), vec(v)]
        elif k == "bounds":
            a["val"] = [vec(v) for v in d.marginal_credible_bounds()]
        elif k == "dim":
            a["val"] = str(int(d.dim))
        elif k == "m2":
            a["val"] = mat(d.m2)
        elif k == "diagonalise":
            e = d.diagonalise()
            a["val"] = [mat(e.mean), mat(e.var)]
        elif k in {"affine", "double"}:
            e = 2 * d + 1 if k == "affine" else d + d
            a["val"] = [mat(e.mean), mat(e.var)]
        elif k == "kl":
            a["val"] = sca(d.kl(d))
        elif k == "draws":
            kw = {} if a["extra"] == "0" else {"noise": self.T(fl(a["extra"]))}
            s = arr(d.sample(a["n"], **kw))
            a["val"] = {"shape": list(s.shape)}
            if s.ndim == 2:
                a["val"].update(lo=vec(s.min(axis=1)), hi=vec(s.max(axis=1)))
        elif k == "entropy":
            a["val"] = sca(d.entropy())
        elif k == "logpdf":
            r = d.logpdf(self.columns(a))
            a["val"] = sca(r) if a["scalar"] else vec(r)
        else:
            raise KeyError(k)

    def op_fdd(self, ev):
        d = self.fdd(ev)
        if ev["m"]:
            d = self.M(ev["m"])(d)
        self._asks(d, ev["asks"])

    def op_take(self, ev):
        d = B.take(self.fdd(ev), np.array(ev["mask"], dtype=bool))
        self._asks(d, ev["asks"])

    def op_badtake(self, ev):
        B.take(self.fdd(ev), np.array(ev["mask"]))

    def draw(self, ev, state=None):
        """Blocks of draws: a list of arrays, and the state given back."""
        n, form = ev["n"], ev["form"]
        fdds = [self.fdd(d) for d in ev["ds"]]
        kw = {}
        if ev["extra"]["f"] != "none":
            v = fl(ev["extra"]["v"])
            kw["noise"] = v if ev["extra"].get("form") != "np" else self.T(v)
        a = () if n == 1 and ev.get("omit") else (n,)
        if form == "fdd":
            d = fdds[0]
            if ev["m"]:
                d = self.M(ev["m"])(d)
            if ev.get("kwn"):
                a, kw = (), dict(kw, num=n)
            if state is None:
                return [d.sample(*a, **kw)], None
            state, s = d.sample(state, *a, **kw)
            return [s], state
        m = self.M(ev["m"]) if ev["m"] else fdds[0].p.measure
        if state is None:
            s = m.sample(*a, *fdds)
            if len(fdds) == 1:
                s = [s]
        else:
            res = m.sample(state, *a, *fdds)
            state, s = res[0], list(res[1:])
        if len(s) != len(fdds):
            raise Bad("number of blocks")
        return s, state

    def rstate(self, ev):
        return B.create_random_state(B.dtype(self.T(1.0)), seed=ev["seed"])

    def op_sample(self, ev):
        if ev["state"] == "explicit":
            state = self.rstate(ev)
            s, state2 = self.draw(ev, state)
            if ev.get("again"):  # The draw is a function of the state, and the state moves on.
                t, state3 = self.draw(ev, self.rstate(ev))
                u, _ = self.draw(ev, state2)
                self.drawn(ev, s, t, u)
        else:
            B.set_random_seed(ev["seed"])
            s, _ = self.draw(ev)
            if ev.get("again"):
                u, _ = self.draw(ev)
                B.set_random_seed(ev["seed"])
                t, _ = self.draw(ev)
                self.drawn(ev, s, t, u)
        s = [arr(x) for x in s]
        ev["val"] = {"shapes": [list(x.shape) for x in s]}
        if any(x.ndim != 2 for x in s):
            return
        v = np.concatenate(s, axis=0)
        ws = np.array([[fl(c) for c in w] for w in ev["ws"]]) if ev["ws"] else np.zeros((0, len(v)))
        ev["val"]["mean"] = vec(v.mean(axis=1))
        ev["val"]["cov"] = mat(np.cov(v, bias=True).reshape(len(v), len(v))) if ev["n"] > 1 else []
        if len(ws) and ws.shape[1] == len(v):
            c = ws @ v
            ev["val"]["lo"], ev["val"]["hi"] = vec(c.min(axis=1)), vec(c.max(axis=1))

    def drawn(self, ev, s, t, u):
        if not all(np.array_equal(arr(a), arr(b)) for a, b in zip(s, t)):
            raise Bad("the same state gave different draws")
        if any(np.std(arr(a)) > 1e-3 and np.array_equal(arr(a), arr(b)) for a, b in zip(s, u)):
            raise Bad("the state was not advanced")

    def op_logpdf(self, ev):
        m, obs, form = self.M(ev["m"]), ev["obs"], ev["form"]
        if form == "obs":
            r = m.logpdf(self.obs(obs))
        else:
            parts = self.parts(obs)
            if form == "two":
                r = m.logpdf(*parts[0])
            elif form == "fdd":  # Through the distribution under the measure.
                r = m(parts[0][0]).logpdf(parts[0][1])
            else:
                r = m.logpdf(*parts)
        ev["val"] = sca(r)

    def op_elbo(self, ev):
        m, o = self.M(ev["m"]), self.obs(ev["obs"])
        ev["val"] = sca(m.logpdf(o) if ev.get("form") == "logpdf" else o.elbo(m))

    def op_nondiag(self, ev):
        m, o = self.M(ev["m"]), self.obs(ev["obs"])
        if ev["form"] == "elbo":
            o.elbo(m)
        elif ev["form"] == "mean":
            (m | o).means[self.P(ev["p"])](self.inp(ev["X"]))
        else:
            (m | o).kernels[self.P(ev["p"])](self.inp(ev["X"]))

    def _kern(self, ev):
        return self.M(ev["m"]).kernels[self.P(ev["p"])] if ev.get("m") else self.P(ev["p"]).kernel

    def op_size(self, ev):
        ev["val"] = str(int(stheno.infer_size(self._kern(ev), self.inp(ev["X"]))))

    def op_dimy(self, ev):
        d = stheno.dimensionality(self._kern(ev))
        ev["val"] = "None" if d is None else str(int(d))

    def op_nel(self, ev):
        ev["val"] = str(int(stheno.num_elements(self.inp(ev["X"]))))

    def kexpr(self, k):
        """A kernel for its dimensionality only."""
        t = k["k"]
        if t == "prim":
            return {"rq": mk.RQ(1), "eq": mk.EQ(), "lin": mk.Linear(), "one": mk.OneKernel(), "zero": mk.ZeroKernel()}[k["of"]]
        if t == "mok":
            return stheno.MultiOutputKernel(self.M(k["m"]), *[self.P(p) for p in k["ps"]])
        if t == "proc":
            return self.P(k["p"]).kernel
        if t == "adk":
            return stheno.AmbiguousDimensionalityKernel(self.kexpr(k["of"]))
        if t == "wrap":
            a = self.kexpr(k["of"])
            return {"scale": lambda: 2.0 * a, "stretch": lambda: a.stretch(2.0), "shift": lambda: a.shift(1.0),
                    "periodic": lambda: a.periodic(1.0), "reversed": lambda: reversed(a), "select": lambda: a.select(0),
                    "transform": lambda: a.transform(lambda x: x)}[k["how"]]()
        if t == "join":
            a, b = self.kexpr(k["l"]), self.kexpr(k["r"])
            return a + b if k["how"] == "+" else a * b
        if t == "sub":
            return mk.SubspaceKernel(self.kexpr(k["l"]), self.kexpr(k["r"]), None, 0)
        if t == "post":
            return mk.PosteriorKernel(self.kexpr(k["of"]), self.kexpr(k["l"]), self.kexpr(k["r"]), None, 0)
        raise KeyError(t)

    def op_kdim(self, ev):
        d = stheno.dimensionality(self.kexpr(ev["kern"]))
        ev["val"] = "None" if d is None else str(int(d))

    def op_ksize(self, ev):
        ev["val"] = str(int(stheno.infer_size(self.kexpr(ev["kern"]), self.inp(ev["X"]))))

    def op_illegal(self, ev):
        what = ev["what"]
        if what == "unattached":
            GP().measure
        elif what == "unattached_mean":
            GP().mean
        elif what == "foreign_mean":
            self.M(ev["m"]).means[self.P(ev["p"])]
        elif what == "foreign_kernel":
            self.M(ev["m"]).kernels[self.P(ev["p"])]
        elif what == "foreign_fdd":
            self.M(ev["m"])(self.P(ev["p"])(self.inp(ev["X"])))
        elif what == "foreign_logpdf":
            x = self.inp(ev["X"])
            self.M(ev["m"]).logpdf(self.P(ev["p"])(x, 1.0), self.data(ev["y"]))
        elif what == "foreign_sample":
            self.M(ev["m"]).sample(self.P(ev["p"])(self.inp(ev["X"]), 1.0))
        elif what == "foreign_joint":  # Several, of which some are not in the measure.
            x = self.inp(ev["X"])
            m, fs = self.M(ev["m"]), [self.P(p)(x, 1.0) for p in ev["ps"]]
            if ev["ask"] == "logpdf":
                m.logpdf(*[(f, self.data(ev["y"])) for f in fs])
            else:
                m.sample(*fs)
        elif what == "joint_obs":
            Obs(*[(self.P(p)(self.inp(ev["X"]), 1.0), self.data(ev["y"])) for p in ev["ps"]])
        elif what == "values":  # Data that is not a single vector.
            y = self.conv(np.arange(ev["rows"] * ev["cols"], dtype=self.dtype).reshape(ev["rows"], ev["cols"]))
            f = self.P(ev["p"])(self.inp(ev["X"]), 1.0)
            if ev["form"] == "obs":
                Obs(f, y)
            elif ev["form"] == "two":
                self.M(ev["m"]) | (f, y)
            else:
                OBS[ev["form"]](self.P(ev["q"])(self.inp(ev["X"])), f, y)
        elif what == "foreign_cond":  # At the latest when the posterior is used.
            X = self.inp(ev["X"])
            m = self.M(ev["m"]) | (self.P(ev["p"])(X, 1.0), self.data(ev["y"]))
            if ev["ask"] == "mean":
                m.means[self.P(ev["q"])](X)
            else:
                m.kernels[self.P(ev["q"])](X)
        elif what == "obs_shape":
            x = self.inp(ev["X"])
            Obs(self.P(ev["p"])(x, 1.0), self.T(np.ones((len(ev["X"]["x"]), 2))))
        elif what == "joint":
            from stheno.model.observations import combine

            combine(*[self.P(p)(self.inp(ev["X"])) for p in ev["ps"]])
        elif what == "normal":
            stheno.Normal(self.T(np.eye(1))) + self.P(ev["p"])
        elif what == "add_other":
            self.P(ev["p"]) + "a"
        elif what == "mul_other":
            self.P(ev["p"]) * "a"
        else:
            raise KeyError(what)

    def op_same(self, ev):
        what = ev["what"]
        if what == "args":  # No array given to the code has changed.
            ok = all(np.array_equal(a, b, equal_nan=True) for a, b in self.given)
        elif what == "nps":  # No processes other than those asked for.
            ok = True
        else:
            raise KeyError(what)
        ev["val"] = "1" if ok else "0"

    def op_show(self, ev):
        """Processes and distributions as text."""
        p, bad = self.P(ev["p"]), []
        a, b, c = str(p), repr(p), p.display()
        if not a == b == c or not a.startswith("GP(") or a == "GP()":
            bad.append("text")
        f = p.display(lambda x: "@")
        if not f.startswith("GP(") or ("@" in f) < bool(ev.get("number")):
            bad.append("format")
        if "X" in ev:
            d = self.fdd(ev)
            for t in (str(d), repr(d)):
                if not t.startswith("<FDD") or a.replace("\n", "") not in t.replace("\n", ""):
                    bad.append("distribution")
        ev["val"] = " ".join(bad) or "ok"

    def op_stationary(self, ev):
        ev["val"] = "1" if self.P(ev["p"]).stationary else "0"

    def op_getgp(self, ev):
        ev["val"] = str(self.pid(self.M(ev["m"])[ev["name"]]))

    def op_getname(self, ev):
        ev["val"] = self.M(ev["m"])[self.P(ev["p"])]

    def op_gpname(self, ev):
        ev["val"] = self.P(ev["p"]).name

    def op_default(self, ev):
        d = Measure.default
        ev["val"] = str(0 if d is None else self.mid(d) or -1)

    def op_home(self, ev):
        ev["val"] = str(self.mid(self.P(ev["p"]).measure))

    def op_members(self, ev):
        ev["val"] = [p + 1 for p in range(len(self.ps)) if any(q is held(self.ps[p]) for q in self.M(ev["m"]).ps)]

    # ------------------------------------------------------------------ run
    def step(self, ev):
        ev["err"] = ""
        signal.setitimer(signal.ITIMER_REAL, EVENT_S)
        try:
            getattr(self, "op_" + ev["op"])(ev)
        except NotImplementedError:
            raise
        except Exception as e:
            ev["err"] = errname(e)
            for k in ("val", "home"):
                ev.pop(k, None)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return ev

    def let_go(self, later):
        """Drop the processes and measures that later events do not mention."""
        n = 0
        for xs, used in ((self.ps, mentions(later, PROC)), (self.ms, mentions(later, MEAS))):
            for i, x in enumerate(xs):
                if not isinstance(x, weakref.ref) and i + 1 not in used:
                    xs[i] = weakref.ref(x)
                    n += 1
        if n:
            gc.collect()

    def run(self, prog):
        """Run a program. Give back the recorded trace (a new list of events)."""
        import copy

        default = Measure.default
        trace = []
        if self.drop:
            gc.freeze()  # What the libraries have made stays.
        try:
            for i, ev in enumerate(prog):
                ev = copy.deepcopy(ev)
                self.step(ev)
                trace.append(ev)
                if self.drop:
                    self.let_go(prog[i + 1 :])
                if ev["op"] in STRUCTURAL and ev["err"] != "" and not ev.get("expect_err"):
                    break  # The rest of the program has lost its objects.
                if ev["op"] in STRUCTURAL and ev["err"] == "" and ev.get("expect_err"):
                    break
        finally:
            Measure.default = default
        return trace


def held(x):
    return x() if isinstance(x, weakref.ref) else x


PROC, MEAS = {"p", "q", "i", "s", "via", "ps"}, {"m"}


def mentions(x, keys):
    """The numbers that are somewhere under these keys."""
    if isinstance(x, list):
        return set().union(*[mentions(v, keys) for v in x]) if x else set()
    if not isinstance(x, dict):
        return set()
    r = set()
    for k, v in x.items():
        if k in keys:
            r |= {v} if isinstance(v, int) else {w for w in v if isinstance(w, int)} if isinstance(v, list) else mentions(v, keys)
        if isinstance(v, (list, dict)):
            r |= mentions(v, keys)
    return r


STRUCTURAL = {"measure", "gp", "un", "bin", "cross", "copy", "viacopy", "custom", "cond", "name", "mname", "enter", "exit"}


def errname(e):
    s = f"{type(e).__name__}: {e}"
    s = "".join(c if 32 <= ord(c) < 127 and c not in '\\"' else " " for c in s)
    return s[:160]
