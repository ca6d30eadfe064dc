"""Programs with leading batch dimensions on the real code: one trace for every batch element."""
import copy

import matrix
import world
from normalworld import NormalWorld
from world import Bad, Dense, Diagonal, World, arr, fl, np, out


class BatchWorld(World):
    """Events as in `World`, where {"b": [...]} stands for one value per batch element.

    `batch` is the shape of the batch. `pick` gives the trace of only that element."""

    def __init__(self, batch, pick=None, **kw):
        World.__init__(self, **kw)
        self.batch, self.pick = tuple(batch), pick

    # ------------------------------------------------------------ arguments
    def stack(self, x, make):
        """An array with batch dimensions, or without if `x` is the same for all elements."""
        if isinstance(x, dict):
            a = np.stack([make(v) for v in x["b"]])
            return a.reshape(self.batch + a.shape[1:])
        return make(x)

    def pts(self, X):
        return self.T(self.stack(X["x"], lambda x: np.array([[fl(v) for v in r] for r in x]).reshape(len(x), -1)))

    def noise(self, no):
        if not isinstance(no.get("v"), dict):
            return World.noise(self, no)
        if no["f"] == "vec":
            return Diagonal(self.T(self.stack(no["v"], lambda v: np.array([fl(s) for s in v]))))
        v = self.T(self.stack(no["v"], lambda v: np.array([[fl(s) for s in r] for r in v])))
        return Dense(v) if no.get("form") == "struct" else v

    def data(self, y, form="col"):
        if not isinstance(y, dict):
            return World.data(self, y, form)
        return self.T(self.stack(y, lambda y: np.array([[fl(s)] for s in y])))

    def columns(self, a):
        return self.T(self.stack(a["y"], lambda y: np.array([[fl(s) for s in col] for col in y]).T))

    # -------------------------------------------------------------- results
    def split(self, rank, f):
        def g(x):
            x = arr(x)
            if x.shape[: x.ndim - rank] != self.batch:
                raise Bad(f"shape {x.shape} of rank {rank} in batch {self.batch}")
            x = x.reshape((-1,) + x.shape[len(self.batch) :])
            return {"b": [f(v) for v in x]}

        return g

    def op_sample(self, ev):
        from lab import B

        if ev["state"] == "explicit":
            s, _ = self.draw(ev, self.rstate(ev))
        else:
            B.set_random_seed(ev["seed"])
            s, _ = self.draw(ev)
        s = [arr(x) for x in s]
        if any(x.ndim != len(self.batch) + 2 or x.shape[:-2] != self.batch for x in s):
            raise Bad(f"samples have shapes {[x.shape for x in s]} in batch {self.batch}")
        s = [x.reshape((-1,) + x.shape[-2:]) for x in s]
        vals = []
        for b in range(len(s[0])):
            v = np.concatenate([x[b] for x in s], axis=0)
            val = {"shapes": [list(x.shape[1:]) for x in s], "mean": world._vec(v.mean(axis=1))}
            val["cov"] = world._mat(np.cov(v, bias=True).reshape(len(v), len(v))) if ev["n"] > 1 else []
            ws = np.array([[fl(c) for c in w] for w in ev["ws"]]) if ev["ws"] else np.zeros((0, len(v)))
            c = ws @ v
            val["lo"], val["hi"] = [out(x.min()) for x in c], [out(x.max()) for x in c]
            vals.append(val)
        ev["val"] = {"b": vals}

    def run(self, prog):
        return self.batched(lambda: self.plain(prog))

    def plain(self, prog):
        return World.run(self, prog)

    def batched(self, run):
        keep = world.mat, world.vec, world.sca
        world._mat, world._vec = keep[0], keep[1]
        try:
            world.mat, world.vec, world.sca = self.split(2, keep[0]), self.split(1, keep[1]), self.split(0, keep[2])
            trace = run()
        finally:
            world.mat, world.vec, world.sca = keep
        n = int(np.prod(self.batch))
        if self.pick is not None:
            return element(trace, self.pick)
        return [element(copy.deepcopy(trace), b) for b in range(n)]


class BatchNormalWorld(NormalWorld, BatchWorld):
    """Batches of normals, with events as in `NormalWorld`."""

    def __init__(self, batch, pick=None, **kw):
        NormalWorld.__init__(self, **kw)
        self.batch, self.pick = tuple(batch), pick

    def column(self, v):
        return self.T(self.stack(v, lambda v: np.array([[fl(c)] for c in v])))

    def mean_of(self, ev):
        if ev["mform"] == "zero":
            return 0
        m = self.column(ev["mean"])
        return Dense(m) if ev["mform"] == "struct" else m

    def var_of(self, ev):
        f = ev["vform"]
        num = lambda v: np.array([[fl(c) for c in r] for r in v])  # noqa: E731
        if f == "diag":
            return Diagonal(self.T(self.stack(ev["var"], lambda v: np.diag(num(v)).copy())))
        if f == "wood":
            d = self.stack(ev["wd"], lambda v: np.array([fl(c) for c in v]))
            return Diagonal(self.T(d)) + matrix.LowRank(self.column(ev["wl"]))
        v = self.T(self.stack(ev["var"], num))
        return Dense(v) if f == "struct" else v

    def const(self, ev):
        return self.column(ev["c"]) if isinstance(ev["c"], dict) else NormalWorld.const(self, ev)

    def matrix_of(self, ev):
        return self.T(self.stack(ev["A"], lambda A: np.array([[fl(c) for c in r] for r in A])))

    def diag_of(self, ev):
        return self.T(self.stack(ev["var"], lambda v: np.array([fl(v[i][i]) for i in range(len(v))])))

    def run(self, prog):
        return self.batched(lambda: NormalWorld.run(self, prog))


def element(t, b):
    """The part of one batch element."""
    if isinstance(t, dict):
        if list(t) == ["b"]:
            return t["b"][b]
        return {k: element(v, b) for k, v in t.items()}
    if isinstance(t, list):
        return [element(v, b) for v in t]
    return t
