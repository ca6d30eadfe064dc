"""Histories of lazy vectors and matrices on the real code."""
import copy

import env

stheno = env.load()
from stheno import LazyMatrix, LazyVector  # noqa: E402


class Thing:
    """An object that equals all other things: indices go by identity."""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


class Value:
    pass


class BuilderError(Exception):
    pass


class LazyWorld:
    def __init__(self):
        self.things = {}
        self.ids = {}
        self.ts, self.ranks, self.doms = [], [], []
        self.values, self.flaky = [], set()
        self.calls = []

    # An index is an object or, if its name is a number, that number.
    def thing(self, s):
        if s.isdigit():
            return int(s)
        if s not in self.things:
            self.things[s] = Thing()
            self.ids[id(self.things[s])] = s
        return self.things[s]

    def rid(self, s):
        x = self.thing(s)
        return x if isinstance(x, int) else id(x)

    def sym(self, i):
        return self.ids.get(i, str(i))

    def index(self, ev):
        forms = ev.get("form") or ["obj"] * len(ev["key"])
        k = tuple(self.thing(s) if f == "obj" else self.rid(s) for s, f in zip(ev["key"], forms))
        return k if len(k) > 1 or ev.get("tuple") else k[0]

    def value(self):
        v = Value()
        self.values.append(v)
        return v

    def name(self, v):
        if v is None:
            return "None"
        for i, w in enumerate(self.values):
            if w is v:
                return f"v{i + 1}"
        return "unknown"

    def builder(self, t, rank, kind, fix, bk, tag):
        def build(*args):
            self.calls.append({"tag": tag, "args": [self.sym(a) for a in args]})
            if bk == "none":
                return None
            if bk == "fail":
                raise BuilderError()
            if bk == "flaky" and tag not in self.flaky:
                self.flaky.add(tag)
                raise BuilderError()
            if bk == "ref":
                i = {"u": args, "l": (self.rid(fix or "a"),) + args, "r": args + (self.rid(fix or "a"),)}[kind]
                if any(j != self.rid("a") for j in i):
                    a = self.thing("a")
                    t[a] if rank == 1 else t[a, a]
            return self.value()

        return build

    def op_new(self, ev):
        self.ts.append(LazyVector() if ev["rank"] == 1 else LazyMatrix())
        self.ranks.append(ev["rank"])

    def op_rule(self, ev):
        t, rank = self.ts[ev["t"] - 1], self.ranks[ev["t"] - 1]
        dom = {self.rid(s) for s in ev["dom"]}
        self.doms.append(dom)
        b = self.builder(t, rank, ev["kind"], ev["fix"], ev["bk"], len(self.doms))
        if ev["kind"] == "u":
            t.add_rule(dom, b)
        elif ev["kind"] == "l":
            t.add_left_rule(self.rid(ev["fix"]), dom, b)
        else:
            t.add_right_rule(self.rid(ev["fix"]), dom, b)

    def op_grow(self, ev):
        dom = self.doms[ev["tag"] - 1]
        dom ^= {self.rid(ev["s"])}

    def op_set(self, ev):
        self.ts[ev["t"] - 1][self.index(ev)] = None if ev["none"] else self.value()

    def op_get(self, ev):
        ev["val"] = self.name(self.ts[ev["t"] - 1][self.index(ev)])

    def step(self, ev):
        ev = copy.deepcopy(ev)
        self.calls = []
        ev["err"], ev["msg"], ev["val"] = False, "", ""
        try:
            getattr(self, "op_" + ev["op"])(ev)
        except Exception as e:
            ev["err"], ev["msg"], ev["val"] = True, type(e).__name__, ""
        ev["calls"] = self.calls
        return ev

    def run(self, prog):
        return [self.step(ev) for ev in prog]
