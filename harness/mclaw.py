"""Exhaustive exploration of small models with exact laws (spec/MCLaw.tla)."""
import random

XQ = {"k": "pts", "x": [["1/4"], ["1"]], "form": "vec", "D": 1}
YQ = {"k": "pts", "x": [["-1/2"]], "form": "mat", "D": 1}


def check(ctx, alphabet, P=4, M=3, limit=150, sub=None):
    """Check the specification, and run programs of it on the code.

    The programs are the histories of a sample of the transitions."""
    r = ctx.mc("MCLaw", "MCLaw_" + alphabet, env=dict(ALPHABET=alphabet, MAXP=str(P), MAXM=str(M)), workers=8,
               label=f"laws of all models over '{alphabet}' ({P} processes, {M} measures)")
    rnd = random.Random(ctx.seed)
    hs = sorted(r.msgs, key=lambda m: repr(m["h"]))
    if sub:
        hs = [h for h in hs if sub(h["h"])]
    if len(hs) > limit:
        hs = rnd.sample(hs, limit)
    progs = []
    for m in hs:
        ev = list(m["h"])
        ps, n = list(range(1, m["np"] + 1)), m["nm"]
        last = ev[-1]
        if last["op"] == "cond":
            ev.append(dict(op="elbo", m=last["m"], obs=last["obs"], form="elbo") if last["obs"]["kind"] != "exact"
                      else dict(op="logpdf", m=last["m"], obs=last["obs"], form="obs"))
            ps = [p for p in ps if p <= 3] + ps[3:]
        for p in ps[-4:]:
            home = n if last["op"] == "cond" else 1
            ev.append(dict(op="mean", m=home, p=p, X=XQ))
            for q in ps[-4:]:
                ev.append(dict(op="cov", m=home, p=p, q=q, X=XQ, Y=YQ))
        progs.append(ev)
    ctx.validate(progs, f"models of the specification over '{alphabet}'")
