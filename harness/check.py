"""Decide one property: `check.py <id>`; or `check.py replay <path>`."""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env
from env import VERIF

MAX_REPORTED = 5


class Ctx:
    """What a check has explored and found."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = self.skips = 0
        self.samples, self.notes, self.parts = [], [], []
        self.violations = 0
        self.known = known_findings(prop)
        self.exec_s = self.judge_s = 0
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)

    def n(self, quick, thorough=None):
        """Number of random programs, scaled by the tier."""
        return (thorough or 10 * quick) if self.thorough else quick

    # ------------------------------------------------------------ recording
    def count(self, v, label, exhaustive=False):
        self.states += v.states
        self.transitions += v.transitions
        self.traces += v.traces
        self.events += v.events
        self.skips += v.skips
        self.parts.append({"part": label, "traces": v.traces, "events": v.events, "states": v.states,
                           "skipped_ill_conditioned": v.skips, "exhaustive": exhaustive})
        print(f"[{self.prop}] {label}: {v.traces} traces, {v.events} events, {v.skips} skipped, "
              f"{len(v.fails)} mismatches (ran {self.exec_s:.1f} s, judged {self.judge_s:.1f} s)", flush=True)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def violation(self, data):
        self.violations += 1
        if self.violations > MAX_REPORTED:
            return
        path = os.path.join(VERIF, "replays", f"{self.prop}-{self.violations}.json")
        with open(path, "w") as f:
            json.dump(dict(data, property=self.prop, tier=self.tier, seed=self.seed), f, indent=1)
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        print("  " + json.dumps(data.get("what", ""))[:600], flush=True)

    # ----------------------------------------------------------- validating
    def validate(self, progs, label, kws=None, tol="1/1000000", exhaustive=False, procs=8, judge_kw=None,
                 world="world.World"):
        """Run programs on the code and judge the traces with SthenoTrace."""
        import engine

        t = time.time()
        traces = engine.execute(progs, kws, procs, world)
        self.exec_s = time.time() - t
        return self.judge(traces, label, progs, kws, tol, exhaustive, judge_kw, world)

    def judge(self, traces, label, progs=None, kws=None, tol="1/1000000", exhaustive=False, judge_kw=None,
              world="world.World"):
        import engine

        t = time.time()
        v = engine.judge(traces, tol=tol, **(judge_kw or {}))
        self.judge_s = time.time() - t
        self.count(v, label, exhaustive)
        if traces:
            self.sample({"part": label, "trace": _short(traces[len(traces) // 2])})
        seen = set()
        for f in v.fails:
            if f["trace"] in seen:
                continue
            seen.add(f["trace"])
            t = traces[f["trace"]]
            ev = (t["ev"] if isinstance(t, dict) else t)[f["line"] - 1]
            self.violation({
                "part": label,
                "what": f"line {f['line']} ({ev['op']}): {f['clause']}; expected {json.dumps(f['expected'])[:300]}",
                "fails": [g for g in v.fails if g["trace"] == f["trace"]],
                "tol": tol,
                "program": progs[f["trace"]] if progs else None,
                "kw": kws[f["trace"]] if kws else {},
                "judge_kw": judge_kw or {},
                "world": world,
                "trace": t,
            })
        return v

    def check_known(self):
        """Run the histories of the recorded findings; anything but what is recorded is a violation."""
        import engine

        if not self.known:
            return
        traces = engine.execute([k["program"] for k in self.known])
        v = engine.judge(traces)
        for i, k in enumerate(self.known):
            fails = [f for f in v.fails if f["trace"] == i]
            new = [f for f in fails if not any(f["line"] == n and f["clause"].startswith(c) for n, c in k["fails"])]
            if new:
                f = new[0]
                self.violation({"part": "recorded finding " + k["id"], "program": k["program"], "tol": "1/1000000", "fails": new,
                                "what": f"line {f['line']}: {f['clause']}", "trace": traces[i]})
            elif fails:
                print(f"KNOWN-FINDING: property={self.prop} {k['id']}: {k['what']}", flush=True)
        self.parts.append({"part": "histories of recorded findings", "traces": len(traces)})

    def mc(self, module, cfg=None, label=None, env=None, args=(), timeout=800, workers=8):
        """Model-check a specification by itself."""
        import tlc

        r = tlc.run(module, cfg, env=env, args=args, timeout=timeout, workers=workers)
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append({"part": label or f"TLC on {cfg or module}", "states": r.distinct, "transitions": r.generated})
        print(f"[{self.prop}] {label or module}: {r.distinct} states, {r.generated} transitions "
              f"({time.time() - self.t0:.1f} s)", flush=True)
        return r

    # -------------------------------------------------------------- results
    def finish(self):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "events_validated": self.events,
                "queries_skipped_ill_conditioned": self.skips,
                "parts": self.parts, "samples": self.samples,
            },
            "assumptions": [
                "floating-point values are compared with exact rational values within a tolerance",
                "the specification states the mathematics the property refers to",
            ],
            "wall_s": round(time.time() - self.t0, 2),
            "violations": self.violations,
        }
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        return 1 if self.violations else 0


def _short(t, n=12):
    evs = t["ev"] if isinstance(t, dict) else t
    return evs[:n]


def known_findings(prop):
    with open(os.path.join(VERIF, "known-findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def main(argv):
    if argv[0] == "replay":
        return replay(argv[1])
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    mod = importlib.import_module(f"checks.{prop.lower()}")
    try:
        mod.run(ctx)
        ctx.check_known()
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            ctx.finish()
            return 1
        return 3
    return ctx.finish()


def replay(path):
    """Run the program of a violation again and judge it."""
    import engine

    with open(path) as f:
        d = json.load(f)
    if not d.get("program"):
        print(json.dumps(d.get("what")))
        print("This violation has no program of its own; run the check again.")
        return 3
    traces = engine.execute([d["program"]], [d.get("kw") or {}], world=d.get("world", "world.World"))
    v = engine.judge(traces, tol=d["tol"], **d.get("judge_kw", {}))
    for f in v.fails:
        print(json.dumps(f)[:400], "\n   ", json.dumps(traces[0][f["line"] - 1])[:400])
    return 1 if v.fails else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
