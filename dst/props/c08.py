"""C08: cost-function side effects fire exactly when selected and change nothing."""
import copy
import logging

import numpy as np

import fnstubs as F
from artifacts import brief
from kernel import InjectedError, Violation, describe_exc
from zquantum.core.cost_function_augmentations import ConditionalSideEffect, augment_cost_function, function_logger
from zquantum.core.history.recorder import recorder
from zquantum.core.history.save_conditions import always, every_nth

ID = "C08"
RUNS = {"quick": 16000, "thorough": 400000}
RULE = ("each run: 1-2 scripted cost functions each augmented 1-3 times (stacked, shared and nested augmentations, logging and custom side effects, with conditions), called by 1-3 interleaved clients "
        "directly, through recorders and plainly, with failing evaluations and attribute writes; non-trivial = a failure or a client switch inside a call happened")
REAL = ["augment_cost_function", "ConditionalSideEffect", "FunctionLogger / function_logger", "save conditions", "recorder (some calls)", "logging module"]
STUB = ["cost functions (scripted values and failures)", "custom side effects (record only)", "log handler (records)", "client scheduling"]
ASSUMPTIONS = ["a condition is a function of its arguments only", "attribute names the augmentation itself uses (function, predicate, call_number, logger, level, message) are not the plain function's"]
PROBES = ["fired", "not-fired", "failed-call", "gradient-fired", "logged", "stacked", "nested-augment", "attr-set", "concurrent-calls", "plain-call", "through-recorder", "gradient-only", "function-only",
          "after-failed-call", "augmentation-reused", "direct", "same-twice", "logger-silenced", "logger-set"]


def aug_spec(rng):
    return dict(kind=rng.choice(["log", "custom", "custom"]), cond=rng.choice(["always", "always", "nth", "value", "params", "number"]), n=rng.choice([1, 2, 3]), level=rng.choice([10, 20, 30]), quiet=rng.random() < 0.2)


def generate(rng, tier):
    fns = [F.gen_spec(rng, i) for i in range(rng.choice([1, 1, 2]))]
    wraps = []
    for i in range(rng.choice([1, 2, 3])):
        wraps.append(dict(over=rng.randrange(4) if i else None, fn=rng.randrange(2), f=[aug_spec(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))], g=[aug_spec(rng) for _ in range(rng.choice([0, 0, 1, 2]))],
                          form=rng.choice(["list", "tuple", "none", "list", "direct"])))
        for kind in "fg":
            if wraps[-1][kind] and rng.random() < 0.2:
                # one and the same augmentation listed twice: it takes effect twice
                same = rng.randrange(len(wraps[-1][kind]))
                wraps[-1][kind].append(dict(wraps[-1][kind][same], same=same))
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([2, 4, 8, 14]) if rng.random() < 0.98 else 120):
            x = rng.random()
            ops.append(dict(op="call" if x < 0.55 else "grad" if x < 0.75 else "attr" if x < 0.82 else "wrap" if x < 0.87 else "level" if x < 0.9 else "plain" if x < 0.94 else "rec", src=rng.randrange(6), keep=rng.random() < 0.8, w=rng.randrange(4), p=[round(rng.uniform(-2, 2), 2) for _ in range(rng.randrange(1, 4))],
                            v=round(rng.uniform(0.5, 2), 2)))
        for a, b in zip(ops, ops[1:]):
            if rng.random() < 0.3:
                b["p"] = [F.near(rng, v, w) for v, w in zip(a["p"], b["p"] + a["p"])]
        clients.append(ops)
    return dict(fns=fns, wraps=wraps, clients=clients, sched=[rng.randrange(3) if rng.random() < 0.5 else 0 for _ in range(rng.choice([0, 40, 100]))])


class Effect(ConditionalSideEffect):
    def __init__(self, function, predicate, tag, log):
        super().__init__(function, predicate)
        self._tag, self._log = tag, log

    def _act(self, result, params):
        self._log.append((self._tag, self.call_number, copy.deepcopy(result), copy.deepcopy(params)))


class Handler(logging.Handler):
    def __init__(self, tag, log):
        super().__init__()
        self.tag, self.log = tag, log

    def emit(self, record):
        self.log.append((self.tag, record.levelno, record.getMessage()))


def decide(spec, value, params, n):
    c, k = spec["cond"], spec["n"]
    if c == "always":
        return True
    if c in ("nth", "number"):
        return n % k == 0
    if c == "value":
        return bool(np.sum(value) > k)
    return bool(np.asarray(params).ravel()[0] > 0)


MESSAGE = "n=%d v=%s"


QUIET = 51


def set_level(lg, level):
    lg.setLevel(level)
    lg._cache.clear()   # the manager does it for the loggers it knows only


def make_aug(sim, spec, tag, log, loggers):
    pred = always if spec["cond"] == "always" else every_nth(spec["n"]) if spec["cond"] == "nth" else (lambda v, p, n: decide(spec, v, p, n))
    if spec["kind"] == "log":
        lg = loggers[tag] = logging.Logger("dst." + tag, level=QUIET if spec.get("quiet") else 1)
        lg.addHandler(Handler(tag, log))
        return function_logger(pred, logger=lg, level=spec["level"], message=MESSAGE)
    return lambda f: Effect(f, pred, tag, log)


class Model:
    """Effects a call through one wrapper must have: innermost first."""

    def __init__(self, tag, spec, loggers):
        self.tag, self.spec, self.n, self.loggers = tag, spec, 0, loggers

    def call(self, sim, value, params):
        n, self.n = self.n, self.n + 1
        if not decide(self.spec, value, params, n):
            return None
        if self.spec["kind"] == "log":
            if self.loggers[self.tag].level > self.spec["level"]:
                sim.probe("logger-silenced")
                return None   # its user does not want to see it at the moment
            sim.probe("logged")
            return (self.tag, self.spec["level"], MESSAGE % (n, value))
        return (self.tag, n, value, params)


def eq(a, b):
    return len(a) == len(b) and all(F.exact(x, y) for x, y in zip(a, b))


def execute(sim, sc):
    log = []
    base = []
    for s in sc["fns"]:
        f, script = F.make(sim, s)
        base.append(dict(f=f, script=script, grad=s["kind"].endswith("+g"), fm=[], gm=[], inner=f if isinstance(f, F.Base) else f.function))
    wraps = []
    loggers = {}
    made = []  # the augmentations of each spec, possibly applied again later

    def name(i, kind, j, s):
        return "w%d%s%d" % (i, kind, s.get("same", j))

    def make(i, kind, specs):
        out = []
        for j, s in enumerate(specs):
            if s.get("same", j) < j:
                sim.probe("same-twice")
                out.append(out[s["same"]])
            else:
                out.append(make_aug(sim, s, name(i, kind, j, s), log, loggers))
        return out

    def wrap(i, w, src):
        if i == len(made):
            made.append((make(i, "f", w["f"]), make(i, "g", w["g"])))
        fa, ga = made[i]

        def form(x):
            return None if not x and w["form"] == "none" else tuple(x) if w["form"] == "tuple" else x

        f = augment_cost_function(src["f"], form(fa), form(ga))
        if w["form"] == "direct" and fa:
            # the augmentations themselves, without the wrapper that passes attributes on
            f = src["f"]
            for a in fa:
                f = a(f)
            sim.probe("direct")
        fm = src["fm"] + [Model(name(i, "f", j, s), s, loggers) for j, s in enumerate(w["f"])]
        gm = src["gm"] + [Model(name(i, "g", j, s), s, loggers) for j, s in enumerate(w["g"])] if src["grad"] else []
        if w["form"] == "direct" and fa:
            return dict(src, f=f, fm=fm, gm=[], grad=False, direct=True)
        return dict(src, f=f, fm=fm, gm=gm)

    for i, w in enumerate(sc["wraps"]):
        src = base[w["fn"] % len(base)] if w["over"] is None or not wraps else (wraps + base)[w["over"] % (len(wraps) + len(base))]
        wraps.append(wrap(i, w, src))
        if src in wraps:
            sim.probe("nested-augment")
        if len(w["f"]) > 1:
            sim.probe("stacked")
        if w["g"] and not w["f"] and src["grad"]:
            sim.probe("gradient-only")
        if w["f"] and not w["g"] and src["grad"]:
            sim.probe("function-only")
    inflight = {}
    failed = set()

    def client(c, ops):
        def run():
            for op in ops:
                sim.stats[op["op"]] += 1
                k = op["w"] % len(wraps)
                w = wraps[k]
                f, script, inner = w["f"], w["script"], w["inner"]
                if op["op"] == "wrap":
                    # the augmentations of this wrapper are applied again, to this or another function: their counts start anew
                    src = (base + wraps[:k])[op["src"] % (len(base) + k)]
                    again = wrap(k, sc["wraps"][k], src)
                    if op["keep"]:
                        wraps[k] = again
                        failed.discard(k)
                    sim.probe("augmentation-reused")
                    continue
                if op["op"] == "level":
                    # the user of the loggers configures them at any time
                    if loggers:
                        lg = loggers[sorted(loggers)[op["src"] % len(loggers)]]
                        set_level(lg, 1 if lg.level > 1 else QUIET)
                        sim.probe("logger-set")
                    continue
                if op["op"] == "attr":
                    if any(inflight.values()) or w.get("direct"):
                        continue
                    f.scale = op["v"]
                    f.note = ("x", op["v"])
                    sim.check(inner.scale == op["v"] and inner.__dict__.get("note") == ("x", op["v"]), "attribute-not-forwarded", "an attribute set through the augmented function did not reach the plain one", "attr-set")
                    inner.scale = inner.scale + 0.5
                    inner.label = inner.label + "'"
                    sim.check(f.scale == inner.scale and f.label == inner.label and f.note == inner.note, "attribute-not-read", "an attribute read through the augmented function is not the plain one's", "attr-get")
                    try:
                        f.no_such_attribute
                    except AttributeError:
                        pass
                    else:
                        raise Violation("attribute-invented", "reading a missing attribute gave a value", "attr-missing")
                    sim.probe("attr-set")
                    continue
                kind = "g" if op["op"] == "grad" else "f"
                if kind == "g" and not w["grad"]:
                    sim.check(not hasattr(f, "gradient"), "gradient-invented", "an augmented function without gradient has one", "gradient-invented")
                    continue
                p = np.array(op["p"])
                at = p.copy()
                target, models = f, (w["fm"] if kind == "f" else w["gm"])
                if op["op"] == "plain":
                    b = base[op["w"] % len(base)]
                    target, models, script, inner = b["f"], [], b["script"], b["inner"]
                    sim.probe("plain-call")
                elif op["op"] == "rec":
                    target = recorder(f)
                    sim.probe("through-recorder")
                if inflight.get(id(script)):
                    sim.probe("concurrent-calls")
                inflight[id(script)] = inflight.get(id(script), 0) + 1
                err = got = None
                mark = len(log)
                try:
                    got = target(p) if kind == "f" else target.gradient(p)
                except InjectedError as e:
                    err = e
                finally:
                    inflight[id(script)] -= 1
                sim.check(np.array_equal(p, at), "params-changed", "a call changed the parameters passed", "params-changed")
                if err is not None:
                    sim.probe("failed-call")
                    failed.add(k)
                    sim.check(any(err is e for e in script.raised), "error-changed", "the plain function's error did not come through: %r" % err, "error-changed")
                    check_log(sim, log, [], "a call that raised")
                    continue
                kd, at2, value, _ = script.done[-1]
                sim.check(kd == kind and np.array_equal(at2, at), "wrong-evaluation", lambda: "the function was evaluated as %s at %s, asked %s at %s" % (kd, at2, kind, at), "wrong-evaluation")
                sim.check(F.exact(got, value), "value-changed", lambda: "plain value %r, augmented value %r" % (value, got), "value-changed")
                want = [x for x in (m.call(sim, value, at) for m in models) if x is not None]
                sim.probe("fired" if want else "not-fired")
                if want and kind == "g":
                    sim.probe("gradient-fired")
                if k in failed:
                    sim.probe("after-failed-call")
                check_log(sim, log, want, "a %s call" % ("value" if kind == "f" else "gradient"))
                if op["op"] == "rec":
                    sim.check(len(target.history) == 1 and F.exact(target.history[0].value, value), "recorded-differs", lambda: "recorded %s for %r" % (brief(target.history), value), "recorded")
        return run

    sim.run_tasks([("c%d" % i, client(i, ops)) for i, ops in enumerate(sc["clients"])])


def check_log(sim, log, want, what):
    # nothing yields between the end of an evaluation and the return of the call, so everything logged now belongs to this call
    got = list(log)
    del log[:]
    sim.check(len(got) == len(want) and all(eq(a, b) for a, b in zip(got, want)), "side-effects-differ",
              lambda: "%s fired %s, expected %s" % (what, brief(got, 600), brief(want, 600)),
              "side-effects:" + ("count" if len(got) != len(want) else "order" if sorted(x[0] for x in got) == sorted(x[0] for x in want) and [x[0] for x in got] != [x[0] for x in want] else "content"))
