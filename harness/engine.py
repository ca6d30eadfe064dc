"""Run programs on the real code in parallel and judge the recorded traces with TLC."""
import json
import multiprocessing as mp
import os
import shutil
import tempfile
import traceback

import tlc


def _run(job):
    import importlib

    i, prog, kw, world = job
    try:
        mod, _, cls = world.rpartition(".")
        w = getattr(importlib.import_module(mod), cls)(**kw)
        return i, w.run(prog), None
    except BaseException:
        return i, None, traceback.format_exc()


def execute(progs, kws=None, procs=8, world="world.World"):
    """Execute programs, give back their traces."""
    import importlib

    importlib.import_module(world.rpartition(".")[0])  # Import before forking.
    jobs = [(i, p, (kws[i] if kws else {}), world) for i, p in enumerate(progs)]
    res = [None] * len(jobs)
    ctx = mp.get_context("fork")
    groups = {}  # A process uses one backend, because loading one is slow.
    for j in jobs:
        groups.setdefault(j[2].get("backend", "numpy"), []).append(j)
    pools = []
    try:
        for js in groups.values():
            pool = ctx.Pool(max(1, round(procs * len(js) / len(jobs))))
            pools.append((pool, pool.imap_unordered(_run, js, chunksize=1 if len(js) < 1000 else 16)))
        for _, it in pools:
            for i, tr, err in it:
                if err:
                    raise RuntimeError("the harness failed on program %d:\n%s" % (i, err))
                res[i] = tr
    finally:
        for pool, _ in pools:
            pool.terminate()
    return res


class Verdict:
    def __init__(self):
        self.fails, self.skips, self.states, self.transitions, self.traces, self.events = [], 0, 0, 0, 0, 0

    def merge(self, o):
        self.fails += o.fails
        self.skips += o.skips
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.events += o.events


def judge(traces, module="SthenoTrace", tol="1/1000000", extra=None, workers=8, timeout=800):
    """Have TLC decide which recorded traces the specification accepts.

    A trace is a list of events or a dictionary with `ev`."""
    traces = [t if isinstance(t, dict) else {"tol": tol, "ev": t} for t in traces]
    v = Verdict()
    if not traces:
        return v
    tmp = tempfile.mkdtemp(prefix="traces")
    try:
        path = os.path.join(tmp, "traces.json")
        with open(path, "w") as f:
            json.dump(traces, f)
        r = tlc.run(module, env={"TRACES": path, **(extra or {})}, workers=workers, timeout=timeout)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    done, skipped = {}, set()
    for m in r.msgs:
        if m["kind"] == "FAIL":
            m["trace"] -= 1
            v.fails.append(m)
        elif m["kind"] == "SKIP":
            v.skips += 1
            skipped.add(m["trace"] - 1)
        elif m["kind"] == "DONE":
            done[m["trace"] - 1] = m
    for i, t in enumerate(traces):
        if i not in done:
            raise tlc.TLCError(f"trace {i} was not consumed")
        if done[i]["live"] and done[i]["line"] != len(t["ev"]) + 1:
            raise tlc.TLCError(f"trace {i} was not consumed completely")
    failing = {f["trace"] for f in v.fails}
    for i in done:
        if not done[i]["live"] and i not in failing | skipped:
            raise tlc.TLCError(f"trace {i} ended without a verdict")
    v.fails.sort(key=lambda f: (f["trace"], f["line"]))
    v.states, v.transitions = r.distinct, r.generated
    v.traces = len(traces)
    v.events = sum(len(t["ev"]) for t in traces)
    return v
