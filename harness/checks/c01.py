"""Arithmetic on processes."""
import mclaw
from families import *

FORMS = [{"k": "-p"}] + [{"k": k, "c": c} for k in ("p+c", "c+p", "p-c", "c-p", "p*c", "c*p", "p/c") for c in ("-2", "1/2")] + [
    {"k": k, "f": fn("1", ["-1/2"], "0")} for k in ("p+f", "f+p", "f-p", "p*f", "f*p")]


def systematic():
    """Every form applied to every form, and every combination of two processes."""
    progs = []
    X, Y = pts([[-1], [F(1, 2)]], "vec"), pts([[F(1, 4)], [2], [0]])
    for i, f1 in enumerate(FORMS):
        g = Prog(0)
        m = g.measure()
        a = g.gp(m, fn("1", ["1"]), {"k": "rq"})
        b = g.gp(m, fn("2"), {"k": "lin"})
        c = g.un(a, f1)
        for f2 in FORMS[i % 3 :: 3]:
            g.un(c, f2)
        d = g.bin("+", c, b)
        e = g.bin("-", b, c)
        h = g.bin("-", d, e)
        g.bin("-", c, c)
        g.bin("+", h, h)
        for p in g.members(m):
            g.q_mean(m, p, X)
            for q in [a, b, c, d, p]:
                g.q_cov(m, p, q, X, Y)
                g.q_cov(m, q, p, Y, X)
        g.q_mean(m, h, X, own=True)
        g.q_cov(m, h, h, X, Y, own=True)
        progs.append(g.ev)
    return progs


def scalars():
    """All numbers in all forms on both sides of all operators."""
    progs = []
    X, Y = pts([[-1], [F(1, 2)]], "vec"), pts([[F(1, 4)], [2], [0]])
    for k in ("p+c", "c+p", "p-c", "c-p", "p*c", "c*p", "p/c"):
        for form in ("", "int", "np", "np1"):
            g = Prog(0)
            m = g.measure()
            a = g.gp(m, fn("1", ["1"]), {"k": "rq"})
            b = g.gp(m, fn("2"), {"k": "rq"})
            s = g.bin("+", a, b)
            for c in ("-3", "-2", "-1", "0", "1", "2", "3", "1/2", "-3/4"):
                if c == "0" and k == "p/c" or form == "int" and "/" in c:
                    continue
                r = g.un(s, {"k": k, "c": c, "cform": form})
                t = g.un(r, {"k": "-p"})
                g.q_mean(m, r, X)
                g.q_cov(m, r, a, X, Y)
                g.q_cov(m, t, r, X, Y)
            progs.append(g.ev)
    return progs


def rand(seed):
    g, m = base(seed, D=1 + (seed % 3 == 0), delta=True)
    if g.r.random() < 0.3:
        # A second, unrelated measure.
        m2 = g.measure()
        g.rgp(m2)
    grow(g, m, g.r.randint(2, 6), ar=0.5, inp=0.0)
    g.all_laws(m, limit=16)
    return g.ev


def run(ctx):
    mclaw.check(ctx, "compose", P=4, M=2)
    ctx.validate(scalars(), "numbers x forms x operators", exhaustive=True)
    ctx.validate(systematic(), "every arithmetic form composed with every other", exhaustive=True)
    ctx.validate([rand(ctx.seed * 100000 + i) for i in range(ctx.n(300))], "random arithmetic programs")
