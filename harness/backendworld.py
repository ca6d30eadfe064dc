"""Programs on all backends and floating-point types."""
import copy

import world
from lab import B
from world import Bad, World, np

PLAIN = world.mat, world.vec
BACKENDS = ["numpy", "autograd", "torch", "tf", "jax"]


def array_type(name):
    if name in ("numpy", "autograd"):
        return np.ndarray
    if name == "torch":
        import torch

        return torch.Tensor
    if name == "tf":
        import tensorflow as tf

        return tf.Tensor
    import jax

    return jax.Array


class BackendWorld(World):
    """Every result has to be an array of the backend, of the data type of the inputs."""

    def __init__(self, dtype="float64", backend="numpy"):
        World.__init__(self, dtype, backend)
        self.type = array_type(backend)
        self.want = B.dtype(self.T(1.0))
        # Python's floating-point constants of the libraries are NumPy's in some places, which NumPy and
        # JAX promote to double precision.
        self.strict = dtype == "float64" or backend in ("torch", "tf")

    def pts(self, X):  # Not plain numbers
        return World.pts(self, dict(X, form="scalar") if X.get("form") == "pyfloat" else X)

    def noise(self, no):
        return World.noise(self, dict(no, form="np") if no.get("form") == "py" else no)

    def typed(self, f):
        def g(x):
            x = B.dense(x)
            if not isinstance(x, self.type) and not (self.type is np.ndarray and isinstance(x, np.generic)):
                raise Bad(f"a {type(x).__module__}.{type(x).__name__} with {self.backend}")
            if self.strict and B.dtype(x) != self.want:
                raise Bad(f"of data type {B.dtype(x)} instead of {self.want}")
            return f(x)

        return g

    def draw(self, ev, state=None):
        s, state = World.draw(self, ev, state)
        for x in s:
            self.typed(lambda x: x)(x)
        return s, state

    def run(self, prog):
        keep = world.mat, world.vec, world.sca
        try:
            world.mat, world.vec, world.sca = [self.typed(f) for f in keep]
            return World.run(self, prog)
        finally:
            world.mat, world.vec, world.sca = keep

    def op_sample(self, ev):
        keep = world.mat, world.vec  # The summaries of the draws are not results.
        try:
            world.mat, world.vec = PLAIN
            World.op_sample(self, ev)
        finally:
            world.mat, world.vec = keep


def put(t, v):
    """A program with a value for its parameter."""
    if isinstance(t, dict):
        return {k: put(x, v) for k, x in t.items()}
    if isinstance(t, list):
        return [put(x, v) for x in t]
    return v if t == "@" else t


class TWorld(World):
    """Inputs and data may depend on the parameter."""

    def elements(self, v):
        return B.stack(*[world.fl(s) if s == "@" else self.T(world.fl(s)) for s in v], axis=0)

    def pts(self, X):
        if X.get("form") == "pyfloat":
            X = dict(X, form="scalar")
        if not any("@" in r for r in X["x"]):
            return World.pts(self, X)
        x = B.stack(*[self.elements(r) for r in X["x"]], axis=0)
        return x[:, 0] if X.get("form") == "vec" else x

    def data(self, y, form="vec"):
        if "@" not in y:
            return World.data(self, y, form)
        y = self.elements(y)
        return y[:, None] if form == "col" else y

    def noise(self, no):
        if no["f"] == "vec" and "@" in no["v"]:
            v = self.elements(no["v"])
            return world.Diagonal(v) if no.get("form") == "struct" else v
        return World.noise(self, no)


class GradWorld(World):
    """Derivatives of the answer to the last event of a program with respect to "@", possibly compiled."""

    def __init__(self, at, h, dtype="float64", backend="autograd", jit=False):
        World.__init__(self, dtype, backend)
        self.at, self.h, self.jit = at, h, jit

    def answer(self, prog, theta):
        """The sum of all numbers of the answer, as a scalar of the backend."""
        keep = world.fl, world.mat, world.sca, world.vec

        def first(x):
            x = B.dense(x)
            got.append(B.sum(x))
            return ["0"] * 99

        try:
            world.fl = lambda s: theta if isinstance(s, str) and s == "@" else keep[0](s)
            world.mat = world.sca = world.vec = first
            w = TWorld(self.dtype.__name__, self.backend)
            for ev in prog:
                ev, got = copy.deepcopy(ev), []
                getattr(w, "op_" + ev["op"])(ev)
                for a in ev.get("asks", ()):
                    if "err" in a:
                        raise Bad(a["err"])
        finally:
            world.fl, world.mat, world.sca, world.vec = keep
        return sum(got[1:], got[0])

    def grad(self, prog):
        def f(t):
            return self.answer(prog, t)

        v = self.dtype(world.fl(self.at))
        if self.backend == "autograd":
            import autograd

            return autograd.grad(f)(v)
        if self.backend == "torch":
            import torch

            t = torch.tensor(v, requires_grad=True)
            y = f(t)
            if y.requires_grad:  # It is not the case if the answer does not depend on the parameter.
                y.backward()
            return t.grad
        if self.backend == "tf":
            import tensorflow as tf

            t = tf.Variable(v)
            with tf.GradientTape() as tape:
                y = f(t)
            return tape.gradient(y, t)
        import jax
        import jax.numpy as jnp

        g = jax.grad(f)
        return (B.jit(g) if self.jit else g)(jnp.array(v))

    def run(self, prog):
        from fractions import Fraction as F

        up, down = [str(F(self.at) + s * F(self.h)) for s in (1, -1)]
        ev = {"op": "grad", "err": "", "h": self.h, "plus": put(prog, up), "minus": put(prog, down), "at": self.at, "prog": prog}
        keep = world.EVENT_S
        world.signal.setitimer(world.signal.ITIMER_REAL, 120)
        try:
            g = self.grad(prog)
            ev["val"] = "0" if g is None else world.sca(g)
        except Exception as e:
            if "make_diagonal" in str(e):  # Autograd cannot differentiate diagonals of matrices.
                return []
            ev["err"] = world.errname(e)
        finally:
            world.signal.setitimer(world.signal.ITIMER_REAL, 0)
            world.EVENT_S = keep
        return [ev]
