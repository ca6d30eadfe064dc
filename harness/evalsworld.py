"""Which covariances a program evaluates."""
from fractions import Fraction

import mlkernels
from lab import B
from mlkernels import Kernel, elwise, pairwise
from world import World, np


class Tracked(Kernel):
    """The kernel `of` that notes the pairs of inputs that it is evaluated at."""

    def __init__(self, of, log, name):
        self.of, self.log, self.name = of, log, name

    def render(self, formatter):
        return f"Tracked({self.name})"

    def __eq__(self, other):
        return self is other

    __hash__ = object.__hash__


def rows(x):
    x = np.array(B.to_numpy(x))
    x = x[None, None] if x.ndim == 0 else x[:, None] if x.ndim == 1 else x
    return [tuple(str(Fraction(float(v))) for v in r) for r in x]


@pairwise.dispatch
def pairwise(k: Tracked, x: B.Numeric, y: B.Numeric):
    k.log.update((k.name, u, v) for u in rows(x) for v in rows(y))
    return mlkernels.pairwise(k.of, x, y)


@elwise.dispatch
def elwise(k: Tracked, x: B.Numeric, y: B.Numeric):
    k.log.update(zip([k.name] * len(rows(x)), rows(x), rows(y)))
    return mlkernels.elwise(k.of, x, y)


class EvalsWorld(World):
    """Records for every query at which pairs of inputs the kernels of the processes were evaluated."""

    def __init__(self):
        World.__init__(self)
        self.log, self.name = set(), None

    def kern(self, k):
        if self.name is None:  # The kernel of a process, not a part of one.
            self.name = len(self.ps) + 1
            try:
                return Tracked(World.kern(self, k) * mlkernels.OneKernel(), self.log, self.name)
            finally:
                self.name = None
        return World.kern(self, k)

    def step(self, ev):
        self.log.clear()
        World.step(self, ev)
        ev["evals"] = sorted([p, list(u), list(v)] for p, u, v in self.log)
        return ev
