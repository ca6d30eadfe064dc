"""Arithmetic on normals."""
import random
from fractions import Fraction as F

from gennormal import NProg
from normalworld import NormalWorld  # noqa: F401

ILLEGAL = ["n*n", "n/n", "n+p", "p+n", "n-p", "p-n", "n*p", "p*n", "n+s", "n*s", "c/n"]


def rand(seed):
    g = NProg(seed)
    for _ in range(g.r.randint(1, 3)):
        g.rnew(g.r.choice([1, 2, 2, 3, 4]))
    for _ in range(g.r.randint(3, 10)):
        a = g.rarith()
        g.ask(a, g.r.choice(["mean", "var", "mean_var", "marginals", "m2"]))
        if g.r.random() < 0.25:
            g.add(op="illegal", k=g.r.choice(ILLEGAL), a=g.r.randint(1, len(g.dims)), b=g.r.randint(1, len(g.dims)))
    for a in range(1, len(g.dims) + 1):  # Operands are as they were.
        g.ask(a, "mean_var")
    return g.ev


def scalars():
    """All numbers in all forms on both sides of all operators, on normals of one and of two dimensions."""
    progs = []
    for n in (1, 2):
        for lazy in (False, True):
            for k in ("n+c", "c+n", "n-c", "c-n", "n*c", "c*n", "n/c"):
                g = NProg(len(progs))
                a = g.new([F(1), F(-1, 2)][:n], [[F(2), F(1, 2)][:n], [F(1, 2), F(1)][:n]][:n], op="lazy" if lazy else "new",
                          fns=["var_diag"] if lazy else ())
                for c in ("-3", "-2", "-1", "0", "1", "2", "3", "1/2", "-3/4"):
                    for form in ("py", "int", "np"):
                        if c == "0" and k == "n/c" or form == "int" and "/" in c:
                            continue
                        b = g.arith(k, a, c=[c], cform=form)
                        g.ask(b, "mean_var")
                        g.ask(b, "marginals")
                progs.append(g.ev)
    return progs


def replay(ctx, label, msgs, limit, tail):
    """Histories of the specification, on the code."""
    hs = {repr(m["h"]): m["h"] for m in msgs}
    hs = [hs[k] for k in sorted(hs)]
    n = len(hs)
    if len(hs) > limit:
        hs = random.Random(ctx.seed).sample(hs, limit)
    validate(ctx, [h + tail(h) for h in hs], f"{label} ({len(hs)} of {n})", exhaustive=len(hs) == n)


def validate(ctx, progs, label, exhaustive=False):
    ctx.validate(progs, label, exhaustive=exhaustive, judge_kw={"module": "NormalTrace"}, world="normalworld.NormalWorld")


def ask(n, a):
    return {"op": "ask", "n": n, "ask": {"a": a}}


def run(ctx):
    r = ctx.mc("MCNormalAlg", env=dict(MAXN="6" if ctx.thorough else "5"), label="algebra and divergences of all small expressions")
    n = lambda h: sum(e["op"] in ("new", "arith") for e in h)  # noqa: E731
    replay(ctx, "expressions of the specification", r.msgs, 20000 if ctx.thorough else 3000,
           lambda h: [ask(i, "mean_var") for i in range(1, n(h) + 1)])
    validate(ctx, scalars(), "numbers x forms x operators", exhaustive=True)
    validate(ctx, [rand(ctx.seed * 100000 + i) for i in range(ctx.n(400))], "random expressions")
