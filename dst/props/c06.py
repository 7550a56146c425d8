"""C06: recorded evaluation history is exact."""
import copy
import functools
import types

import numpy as np

import fnstubs as F
from artifacts import brief
from kernel import InjectedError, injected, Violation, describe_exc
from zquantum.core.history.recorder import recorder
from zquantum.core.history.save_conditions import always, every_nth

ID = "C06"
RUNS = {"quick": 16000, "thorough": 400000}
RULE = ("each run: 1-3 recorders of any variant over scripted functions (failing, yielding, storing artifacts), 1-3 interleaved clients with drawn histories of value calls, "
        "gradient calls, in-place parameter changes, copies, deep copies and attribute writes; non-trivial = a failure or a client switch inside an evaluation happened")
REAL = ["recorder, all four variants", "save conditions", "function_with_gradient"]
STUB = ["recorded functions (scripted values, failures, artifacts)", "client scheduling"]
ASSUMPTIONS = ["neither the caller nor the function changes the parameter array while the call is in progress"]
PROBES = ["failed-call", "forced-artifact", "unforced-artifact-dropped", "gradient-call", "deepcopy", "call-after-deepcopy", "params-mutated", "attr-set", "concurrent-calls", "condition-false",
          "condition-raised", "copy", "stateful-condition", "immutable-parameters", "array-returned", "result-mutated"]


def generate(rng, tier):
    nf = rng.choice([1, 1, 2, 3])
    recs = []
    for i in range(nf):
        c = rng.choice(["always", "always", "nth", "nth", "value", "never", "params", "raise", "number", "tally"])
        fn = F.gen_spec(rng, i)
        if c == "tally" and fn["kind"].startswith("art"):
            c = "always"  # whether the condition is asked when an artifact forces the entry is left open
        if rng.random() < 0.1:
            fn["vtype"] = "vector"
        if rng.random() < 0.2:
            fn["reuse"] = True
        if fn["kind"] in ("plain", "art") and rng.random() < 0.3:
            fn["style"], fn["form"] = "closure", rng.choice(["bare", "bare", "wrapped"])
        recs.append(dict(fn=fn, cond=c, n=rng.choice([1, 2, 3, 5])))
    clients = []
    for c in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([2, 4, 8, 14]) if rng.random() < 0.98 else 120):
            x = rng.random()
            r = rng.randrange(4)
            if x < 0.8 and ops and ops[-1]["op"] in ("call", "grad") and rng.random() < 0.15:  # the same place again, or one close by
                last = ops[-1]
                if rng.random() < 0.7:
                    ops.append(dict(op="mutate", p=last["p"], v=0.0, i=rng.randrange(3), by=rng.choice([1e-5, 1e-7, -1e-9, 1e-12])))
                ops.append(dict(last))
            elif x < 0.5:
                ops.append(dict(op="call", r=r, p=rng.randrange(2)))
            elif x < 0.65:
                ops.append(dict(op="grad", r=r, p=rng.randrange(2)))
                if rng.random() < 0.3:
                    ops[-1]["use"] = True
            elif x < 0.8:
                ops.append(dict(op="mutate", p=rng.randrange(2), v=round(rng.uniform(-2, 2), 3), i=rng.randrange(3), by=rng.choice([0, 0, 1e-5, 1e-7, -1e-9, 1e-12])))
            elif x < 0.9:
                ops.append(dict(op="deepcopy" if rng.random() < 0.7 else "copy", r=r))
            else:
                ops.append(dict(op="attr", r=r, v=round(rng.uniform(0.5, 2), 2)))
        clients.append(dict(ops=ops, ptypes=[rng.choice(["array"] * 6 + ["int", "2d", "view", "list", "tuple", "scalar", "float32"]) for _ in range(2)], params=[[round(rng.uniform(-2, 2), 3) for _ in range(rng.randrange(1, 4))] for _ in range(2)]))
    return dict(recs=recs, clients=clients, sched=[rng.randrange(3) if rng.random() < 0.5 else 0 for _ in range(rng.choice([0, 40, 100]))])


class Cond:
    def __init__(self, sim, spec):
        self.sim, self.spec = sim, spec
        self.asked = 0

    def __deepcopy__(self, memo):
        if self.spec["cond"] != "tally":
            return self
        memo[id(self)] = c = Cond(self.sim, self.spec)  # a condition with a state of its own
        c.asked = self.asked
        return c

    def decide(self, value, params, n):
        c, k = self.spec["cond"], self.spec["n"]
        if c == "always":
            return True
        if c in ("nth", "number"):
            return n % k == 0
        if c == "never":
            return False
        if c == "value":
            return bool(np.sum(value) > k)
        if c == "params":
            return bool(np.asarray(params).ravel()[0] > 0)
        return n % 3 != 2  # "raise": raises when n % 3 == 1

    def __call__(self, value, params, call_number):
        if self.spec["cond"] == "raise" and call_number % 3 == 1 and not getattr(self, "cooled", False):
            self.cooled = True
            self.sim.probe("condition-raised")
            raise injected(self.sim, "condition")
        self.cooled = False
        if self.spec["cond"] == "tally":
            self.asked += 1
            return self.asked % self.spec["n"] == 0
        return self.decide(value, params, call_number)

    def real(self):
        if self.spec["cond"] == "always":
            return always
        if self.spec["cond"] == "nth":
            return every_nth(self.spec["n"])
        return self


class Model:
    """What one recorder's history must be."""

    def __init__(self, cond, with_grad, arts):
        self.cond, self.with_grad, self.arts = cond, with_grad, arts
        self.f, self.nf, self.g, self.ng = [], 0, [], 0
        self.extra = {}
        self.asked = 0

    def fork(self):
        m = Model(self.cond, self.with_grad, self.arts)
        m.f, m.nf, m.g, m.ng = list(self.f), self.nf, list(self.g), self.ng
        m.extra = dict(self.extra)
        m.asked = self.asked
        return m

    def add(self, kind, params, value, stored):
        n = self.nf if kind == "f" else self.ng
        if self.cond.spec["cond"] == "tally":
            self.asked += 1
            keep = self.asked % self.cond.spec["n"] == 0
        else:
            keep = self.cond.decide(value, params, n)
        forced = any(f for _, f in stored.values())
        if keep or forced:
            (self.f if kind == "f" else self.g).append((n, params, value, {k: v for k, (v, _) in stored.items()}))
        if kind == "f":
            self.nf += 1
        else:
            self.ng += 1
        return keep, forced


def execute(sim, sc):
    recs = []  # [recorder, model, script]
    for s in sc["recs"]:
        fn, script = F.make(sim, s["fn"])
        cond = Cond(sim, s)
        if s["cond"] == "tally":
            sim.probe("stateful-condition")
        r = recorder(fn, cond.real())
        recs.append([r, Model(cond, s["fn"]["kind"].endswith("+g"), s["fn"]["kind"].startswith("art")), script, fn])
    inflight = {}

    def script_of(rec):
        return rec[2]

    def client(c, spec):
        params = [make_params(p, k) for p, k in zip(spec["params"], spec["ptypes"])]

        def run():
            for op in spec["ops"]:
                sim.stats[op["op"]] += 1
                if op["op"] == "mutate":
                    p = params[op["p"]]
                    if isinstance(p, (tuple, float)):
                        sim.probe("immutable-parameters")
                        continue
                    p[op["i"] % len(p)] = p[op["i"] % len(p)] + op["by"] if op["by"] else op["v"]
                    sim.probe("params-mutated")
                    for rec in recs:
                        verify(sim, rec, "after the caller changed its parameters")
                    continue
                k = op["r"] % len(recs)
                rec = recs[k]
                r, m, script, fn = rec
                if op["op"] == "deepcopy":
                    if inflight.get(id(r)) or len(recs) > 6 or isinstance(fn, (types.FunctionType, functools.partial)):
                        continue   # a deep copy of a plain function is that function
                    r2 = copy.deepcopy(r)
                    scr2 = r2.target.script if hasattr(r2.target, "script") else r2.target.function.script
                    sim.check(scr2 is not script and r2 is not r, "copy-shares-target", "deep copy of a recorder shares its function", "copy-shares-target")
                    new = [r2, m.fork(), scr2, r2.target]
                    recs.append(new)
                    sim.probe("deepcopy")
                    verify(sim, new, "in a fresh deep copy")
                    continue
                if op["op"] == "copy":
                    if not inflight.get(id(r)):
                        verify(sim, [copy.copy(r), m, script, fn], "in a fresh shallow copy")
                        sim.probe("copy")
                    continue
                if op["op"] == "attr":
                    if inflight.get(id(r)):
                        continue
                    r.scale = op["v"]
                    r.note = ("x", op["v"])
                    inner = fn if isinstance(fn, (F.Base, types.FunctionType, functools.partial)) else fn.function
                    sim.check(inner.scale == op["v"] and inner.__dict__.get("note") == ("x", op["v"]), "attribute-not-forwarded", "attribute set through the recorder did not reach the function", "attr-set")
                    sim.check(r.scale == op["v"] and r.label == inner.label and r.note == inner.note, "attribute-not-read", "attribute read through the recorder is not the function's", "attr-get")
                    if m.extra.get("scale") != op["v"]:
                        m.extra["scale"] = op["v"]
                    sim.probe("attr-set")
                    continue
                kind = "f" if op["op"] == "call" else "g"
                if kind == "g" and not m.with_grad:
                    continue
                p = params[op["p"]]
                at = copy.deepcopy(p)
                if inflight.get(id(r)):
                    sim.probe("concurrent-calls")
                    if m.cond.spec["cond"] == "raise":
                        continue
                inflight[id(r)] = inflight.get(id(r), 0) + 1
                before = len(script.done), len(script.raised)
                err = got = None
                try:
                    got = r(p) if kind == "f" else r.gradient(p)
                except InjectedError as e:
                    err = e
                finally:
                    inflight[id(r)] -= 1
                if err is not None:
                    sim.probe("failed-call")
                    if str(err) != "condition":
                        sim.check(any(err is e for e in script.raised), "error-changed", "the function's own error did not come through: %r" % err, "error-changed")
                    verify(sim, rec, "after a call that raised")
                    continue
                kd, at2, value, stored = script.done[-1]
                sim.check(kd == kind and same(at2, at), "wrong-evaluation", lambda: "the function was evaluated as %s at %s, asked %s at %s" % (kd, at2, kind, at), "wrong-evaluation")
                sim.check(same(got, value), "value-changed", lambda: "the function returned %r, the recorder %r" % (value, got), "value-changed")
                keep, forced = m.add(kind, at, value, stored if kind == "f" else {})
                if not keep:
                    sim.probe("condition-false")
                    if forced:
                        sim.probe("forced-artifact")
                    elif stored:
                        sim.probe("unforced-artifact-dropped")
                if kind == "g":
                    sim.probe("gradient-call")
                if isinstance(got, np.ndarray):
                    sim.probe("array-returned")
                    if op.get("use"):
                        got *= -0.1   # a step along it
                        sim.probe("result-mutated")
                if k >= len(sc["recs"]):
                    sim.probe("call-after-deepcopy")
                for x in recs:
                    if not inflight.get(id(x[0])) or x is rec:
                        verify(sim, x, "after a %s" % ("call" if kind == "f" else "gradient call"))
        return run

    sim.run_tasks([("c%d" % i, client(i, s)) for i, s in enumerate(sc["clients"])])
    for rec in recs:
        verify(sim, rec, "at the end")


same = F.exact


def make_params(spec, kind):
    if kind == "int":
        return np.array([int(10 * x) for x in spec])
    if kind == "2d":
        return np.array([spec, [2 * x for x in spec]])
    if kind == "view":
        return np.array([[x, 9.0] for x in spec])[:, 0]
    if kind == "list":
        return list(spec)
    if kind == "tuple":
        return tuple(spec)
    if kind == "scalar":
        return spec[0]
    if kind == "float32":
        return np.array(spec, dtype=np.float32)
    return np.array(spec)


def verify(sim, rec, what):
    r, m, script, fn = rec
    check_list(sim, r.history, m.f, m.arts, "history", what)
    sim.check(r.call_number == m.nf, "call-number", lambda: "%s: call_number is %s after %d successful calls" % (what, r.call_number, m.nf), "call-number")
    if m.with_grad:
        check_list(sim, r.gradient.history, m.g, False, "gradient history", what)
        sim.check(r.gradient.call_number == m.ng, "gradient-call-number", lambda: "%s: gradient call_number is %s after %d successful calls" % (what, r.gradient.call_number, m.ng), "gradient-call-number")


def check_list(sim, hist, want, arts, name, what):
    sim.check(len(hist) == len(want), "history-length", lambda: "%s: %s has %d entries, expected %d: %s vs %s" % (what, name, len(hist), len(want), brief(hist), brief(want)), name + "-length")
    for i, (h, w) in enumerate(zip(hist, want)):
        bad = []
        if h.call_number != w[0]:
            bad.append("call_number %s != %s" % (h.call_number, w[0]))
        if not same(h.params, w[1]):
            bad.append("params %r != %r" % (h.params, w[1]))
        if not same(h.value, w[2]):
            bad.append("value %r != %r" % (h.value, w[2]))
        if arts and dict(h.artifacts) != w[3]:
            bad.append("artifacts %s != %s" % (h.artifacts, w[3]))
        sim.check(not bad, "history-entry", lambda: "%s: %s entry %d: %s" % (what, name, i, "; ".join(bad)), name + "-entry")
