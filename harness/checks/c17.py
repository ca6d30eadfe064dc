"""Inducing-point posteriors are exactly the VFE, FITC and DTC approximations."""
import mclaw
from families import *

KINDS = ["vfe", "fitc", "dtc"]
CLASSES = {"vfe": ["PseudoObs", "SparseObs", "PseudoObservations", "SparseObservations"],
           "fitc": ["PseudoObsFITC", "PseudoObservationsFITC"], "dtc": ["PseudoObsDTC", "PseudoObservationsDTC"]}


def model():
    g = Prog(0, 1)
    m = g.measure()
    a = g.gp(m, fn("1", ["1/2"]), {"k": "rq"})
    b = g.gp(m, fn("-1"), {"k": "stretch", "c": ["2"], "of": {"k": "rq"}})
    s = g.bin("+", a, b)
    h = g.un(a, {"k": "shift", "c": ["1/2"]})
    return g, m, a, b, s, h


def inducing(a, b, s, h, c):
    Z2, Z1 = pts([[0], [1]], "vec"), pts([[F(-1, 2)]])
    return [
        [{"p": s, "X": Z2, "noise": NONE}],
        [{"p": a, "X": Z2, "noise": NONE}],
        [{"p": b, "X": Z1, "noise": scal("1/10", form="py")}],
        [{"p": a, "X": Z2, "noise": nvec(["1/10", "1/4"])}, {"p": b, "X": Z1, "noise": NONE}],
        [{"p": s, "X": Z2, "noise": nmat([["1/2", "1/8"], ["1/8", "1/4"]])}],
        [{"p": s, "X": Z1, "noise": NONE}, {"p": s, "X": pts([[F(3, 4)]], "scalar"), "noise": scal("1/4")}],
        [{"p": h, "X": Z2, "noise": NONE}, {"p": s, "X": Z1, "noise": NONE}, {"p": b, "X": pts([[F(1, 4)]], "vec"), "noise": NONE}],
        [{"p": c, "X": pts([[F(1, 4)]], "vec"), "noise": NONE}],
        [{"p": c, "X": tup(fddx(a, Z2), fddx(s, Z1)), "noise": scal("1/10")}],
    ]


def data(a, b, s, h, c):
    X2 = pts([[F(1, 2)], [F(-3, 4)]], "vec")
    X3 = pts([[0], [1], [F(5, 4)]])
    V = lambda n: ["1", "-1/2", "2", "1/4"][:n]
    return [
        [{"p": s, "X": X3, "noise": scal("1/4", form="py"), "y": V(3), "yform": "vec"}],
        [{"p": s, "X": X2, "noise": nvec(["1/4", "1/2"]), "y": V(2), "yform": "col"}],
        [{"p": h, "X": X3, "noise": nvec(["1/4", "1/2", "1"], form="struct"), "y": V(3), "yform": "col"}],
        [{"p": a, "X": X2, "noise": scal("1/2"), "y": V(2), "yform": "vec"}, {"p": s, "X": X3, "noise": nvec(["1/4", "1", "1/2"]), "y": V(3), "yform": "vec"}],
        [{"p": b, "X": pts([[F(1, 2)]], "scalar"), "noise": scal("1/2"), "y": ["1"], "yform": "scalar"}],
        [{"p": c, "X": X2, "noise": scal("1/2"), "y": V(4), "yform": "vec"}],
    ]


def systematic(kind):
    progs = []
    for ui in range(9):
        for di in range(6):
            g, m, a, b, s, h = model()
            c = g.cross(b, h)
            us, parts = inducing(a, b, s, h, c)[ui], data(a, b, s, h, c)[di]
            if ui % 3 == 1:  # Under a posterior.
                m = g.cond(m, {"kind": "exact", "parts": [{"p": s, "X": pts([[2]]), "noise": scal("1/4"), "y": ["1"], "yform": "vec"}], "us": []}, "two")
            elif ui % 3 == 2:
                m = g.cond(m, {"kind": KINDS[di % 3], "us": [{"p": a, "X": pts([[2], [0]]), "noise": NONE}],
                               "parts": [{"p": s, "X": pts([[2]]), "noise": scal("1/4"), "y": ["1"], "yform": "vec"}]}, "obs")
            names = CLASSES[kind]
            obs = {"kind": kind, "us": us, "parts": parts, "cls": names[(ui + di) % len(names)], "uflat": di % 2 == 0, "flat": ui % 2 == 0}
            m2 = g.cond(m, obs, "obs", dot=ui % 2 == 1)
            d = g.bin("-", g.copy(m2, s), g.copy(m2, a))
            for p, q in [(a, b), (s, s), (b, s), (h, a), (s, c)]:
                g.q_mean(m2, p, pts([[F(1, 4)], [1]], "vec"))
                g.q_cov(m2, p, q, pts([[F(1, 4)], [1]], "vec"), pts([[F(-1, 2)]]))
            g.q_elw(m2, s, s, pts([[F(1, 4)], [1]]), pts([[F(-1, 2)], [1]]))
            g.q_fdd(d, pts([[0], [F(1, 2)]], "vec"), scal("1/4"), 0, ["mean", "var", "marginals"])
            progs.append(g.ev)
    return progs


def nondiagonal():
    """Correlated observation noise is rejected, at the latest when something is asked for."""
    progs = []
    for kind in KINDS:
        for form in ("elbo", "mean", "cov"):
            for no in (nmat([["1", "1/4"], ["1/4", "1"]]), nmat([["1", "1/4"], ["1/4", "1"]], form="struct")):
                g, m, a, b, s, h = model()
                X = pts([[0], [1]], "vec")
                part = {"p": s, "X": X, "noise": no, "y": ["1", "2"], "yform": "vec"}
                other = {"p": a, "X": X, "noise": scal("1/2"), "y": ["1", "2"], "yform": "vec"}
                for parts in ([part], [other, part]):
                    g.add(op="nondiag", m=m, obs={"kind": kind, "us": [{"p": a, "X": X, "noise": NONE}], "parts": parts}, form=form, p=s, X=X)
                g.q_cov(m, s, a, X, X)
                progs.append(g.ev)
    return progs


def us0(g, obs):
    return (obs["us"] or obs["parts"])[0]["p"]


def rand(seed):
    g, m = base(seed, D=1 + (seed % 3 == 0), gps=(1, 3), pd=True)
    grow(g, m, g.r.randint(1, 4), inp=0.3, prod=0.05, soft=1)
    pd = [p for p in g.members(m) if p in g.pd]
    ps = [p for p in g.members(m) if g.soft[p] < 2]
    if seed % 4 == 0:
        p = g.r.choice(ps)
        ps.append(g.cross(p, g.r.choice(same_dim(g, p, ps))))
    done = []
    for _ in range(g.r.randint(1, 3)):
        if done and g.r.random() < 0.5:  # The same object again, in this or another measure.
            m = g.rcond(m if len(done) < 3 else g.r.choice([m, 1]), o := g.r.choice(done))
            done.append(o)
            g.all_laws(m, limit=5)
            continue
        kind = g.r.choice(KINDS + ["exact"] * (m > 1))
        obs = g.robs([g.r.choice(ps) for _ in range(g.r.choice([1, 1, 2, 3]))], g.r.choice([1, 2, 3]), kind=kind,
                     us=g.r.sample(pd, min(len(pd), g.r.choice([1, 1, 2]))) if kind != "exact" else None, none=False)
        obs["ref"] = len(done)
        done.append(obs)
        if g.r.random() < 0.3:  # Used before.
            g.q_mean(g.cond(1, obs, "obs"), us0(g, obs), g.rX(us0(g, obs), 2))
        m = g.cond(m, obs, "obs", dot=bool(g.r.getrandbits(1)))
        if g.r.random() < 0.5:
            grow(g, m, 1, inp=0.3)
        g.all_laws(m, limit=7)
    return g.ev


def run(ctx):
    mclaw.check(ctx, "pseudo", P=3, M=2)
    ctx.validate([p for k in KINDS for p in systematic(k)], "approximations x inducing points x data", exhaustive=True)
    ctx.validate(nondiagonal(), "correlated noise", exhaustive=True)
    ctx.validate([rand(ctx.seed * 100000 + i) for i in range(ctx.n(90))], "random programs")
    ctx.validate([large(ctx.seed * 100000 + i, kind=KINDS[i % 3]) for i in range(ctx.n(24))], "large programs")
