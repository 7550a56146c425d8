"""C07: optimization histories list exactly the evaluations made."""
import functools
import logging

import numpy as np
import scipy.optimize

import fnstubs as F
from artifacts import brief
from kernel import InjectedError, Violation
from zquantum.core.cost_function_augmentations import augment_cost_function, function_logger
from zquantum.core.gradients import finite_differences_gradient
from zquantum.core.history.recorder import HistoryEntry, recorder
from zquantum.core.history.save_conditions import every_nth
from zquantum.core.interfaces.functions import function_with_gradient
from zquantum.core.interfaces.mock_objects import MockNestedOptimizer
from zquantum.core.interfaces.optimizer import NestedOptimizer, Optimizer, construct_history_info, extend_histories, optimization_result

ID = "C07"
RUNS = {"quick": 16000, "thorough": 400000}
RULE = ("each run: 1-3 interleaved clients running minimizations (scripted, buffer-reusing, error-tolerant, preprocessing and SciPy-driven optimizers, nested optimizers over per-iteration cost "
        "functions of mixed kinds) on private or shared optimizers and cost functions with failing evaluations, and merging histories; non-trivial = a failure or a client switch during a minimization")
REAL = ["Optimizer.minimize", "NestedOptimizer.minimize", "construct_history_info", "extend_histories", "recorder", "MockNestedOptimizer (some runs)", "scipy.optimize.minimize (some runs)"]
STUB = ["optimization algorithm (scripted evaluation plan, except SciPy runs)", "cost functions (scripted values, failures, artifacts)", "client scheduling"]
ASSUMPTIONS = ["a recorder factory given by the user selects which evaluations are kept; the default keeps all"]
PROBES = ["kept", "not-kept", "aborted", "after-abort", "tolerated-failure", "gradient-history", "nested", "nested-mixed-kinds", "merge-branch", "shared-optimizer-concurrent", "shared-function-concurrent",
          "scipy", "preprocessed", "buffer-reused", "already-a-recorder", "augmented", "custom-recorder", "result-extended"]


def generate(rng, tier):
    fns = [dict(F.gen_spec(rng, i, calls=30), wrap=rng.choice([None, None, None, None, 'rec', 'aug'])) for i in range(rng.choice([1, 2, 3, 4]))]
    opts = []
    for _ in range(rng.choice([1, 2, 3])):
        opts.append(dict(kind=rng.choice(["script", "script", "script", "fd", "scipy"]), rec=rng.choice([None, None, 1, 2, 3]), buffer=rng.random() < 0.5, tolerant=rng.random() < 0.4))
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            x = rng.random()
            o = dict(op="min" if x < 0.6 else "nested" if x < 0.85 else "merge", opt=rng.randrange(4), fn=rng.randrange(4), keep=rng.random() < 0.75, extend=rng.random() < 0.3, default=rng.random() < 0.5, dim=rng.randrange(1, 4),
                     plan=[[rng.choice("ffg"), round(rng.uniform(-2, 2), 3)] for _ in range(rng.choice([0, 1, 3, 6, 10]) if rng.random() < 0.985 else 110)])
            if o["op"] != "min":
                o["fns"] = [rng.randrange(4) for _ in range(rng.choice([1, 2, 3, 4]))]
                o["mock"] = rng.random() < 0.3
                o["rec"] = rng.choice([None, None, 2])
                o["branch"] = rng.randrange(4)
            for a, b in zip(o["plan"], o["plan"][1:]):
                b[1] = F.near(rng, a[1], b[1])
            ops.append(o)
        clients.append(ops)
    return dict(fns=fns, opts=opts, clients=clients, sched=[rng.randrange(3) if rng.random() < 0.5 else 0 for _ in range(rng.choice([0, 60, 150]))])


QUIET = logging.Logger("dst.quiet", level=logging.CRITICAL)


def returned(v):
    """A value as it is now: SciPy's optimizers write into the gradient they were given."""
    return v.copy() if isinstance(v, np.ndarray) else v


class World:
    def __init__(self, sim):
        self.sim = sim
        self.by_task = {}

    @property
    def evals(self):
        return self.by_task[self.sim.current.name]


class Opt(Optimizer):
    """Evaluates a plan of points and keeps its own list of what it evaluated."""

    def __init__(self, world, spec):
        if spec["rec"] is None:
            super().__init__()
        else:
            super().__init__(functools.partial(recorder, save_condition=every_nth(spec["rec"])))
        self.world, self.spec = world, spec
        self.active = 0

    def _preprocess_cost_function(self, f):
        if self.spec["kind"] == "fd" and not hasattr(f, "gradient"):
            self.world.sim.probe("preprocessed")
            return function_with_gradient(f, finite_differences_gradient(f))
        return f

    def evaluate(self, cost_function, kind, p):
        at = np.array(p, copy=True)
        script = self.world.evals["script"]
        v = cost_function(p) if kind == "f" else cost_function.gradient(p)
        self.world.evals["list"].append((kind, at, returned(v), script.done[-1][3] if kind == "f" else {}))
        return v

    def _minimize(self, cost_function, initial_params, keep_history=False):
        self.active += 1
        if self.active > 1:
            self.world.sim.probe("shared-optimizer-concurrent")
        try:
            return self._go(cost_function, initial_params, keep_history)
        finally:
            self.active -= 1

    def _go(self, cost_function, initial_params, keep_history):
        grad = hasattr(cost_function, "gradient")
        if self.spec["kind"] == "scipy":
            self.world.sim.probe("scipy")
            kw = dict(method="L-BFGS-B", jac=lambda p: np.asarray(self.evaluate(cost_function, "g", p), dtype=float), options=dict(maxfun=6, maxiter=3)) if grad else dict(method="Nelder-Mead", options=dict(maxfev=6))
            r = scipy.optimize.minimize(lambda p: self.evaluate(cost_function, "f", p), np.array(initial_params, dtype=float), **kw)
            return optimization_result(opt_value=r.fun, opt_params=r.x, nit=r.nit, nfev=r.nfev, **construct_history_info(cost_function, keep_history))
        buf = np.array(initial_params, dtype=float)
        best = None
        for k, (kind, v) in enumerate(self.world.evals["plan"]):
            if kind == "g" and not grad:
                continue
            if self.spec["buffer"]:
                self.world.sim.probe("buffer-reused")
            else:
                buf = buf.copy()
            buf[k % len(buf)] = v
            try:
                val = self.evaluate(cost_function, kind, buf)
            except InjectedError:
                if not self.spec["tolerant"]:
                    raise
                self.world.sim.probe("tolerated-failure")
                continue
            if kind == "f" and (best is None or val < best[0]):
                best = (val, buf.copy())
        buf[:] = 99.0
        return optimization_result(opt_value=best and best[0], opt_params=best[1] if best else buf.copy(), nit=1, nfev=len(self.world.evals["list"]), **construct_history_info(cost_function, keep_history))


class Nested(NestedOptimizer):
    def __init__(self, inner, n_iters, rec):
        self._inner, self.n_iters, self._rec = inner, n_iters, rec

    inner_optimizer = property(lambda self: self._inner)
    recorder = property(lambda self: self._rec)

    def _minimize(self, factory, initial_params, keep_history=False):
        histories = {"history": []}
        nfev = 0
        for i in range(self.n_iters):
            f = factory(i)
            if keep_history:
                f = self.recorder(f)
            r = self.inner_optimizer.minimize(f, initial_params)
            nfev += r.nfev
            if keep_history:
                histories = extend_histories(f, histories)
        return optimization_result(opt_value=r.opt_value, opt_params=r.opt_params, nit=self.n_iters, nfev=nfev, **histories)


def nth(n):
    return recorder if n is None else functools.partial(recorder, save_condition=every_nth(n))


def select(evals, kind, n, arts=False):
    """The entries a recorder keeps: every n-th, and those with a forced artifact."""
    e = [x for x in evals if x[0] == kind]
    return [(i,) + x[1:] for i, x in enumerate(e) if i % (n or 1) == 0 or (arts and any(forced for _, forced in x[3].values()))]


def execute(sim, sc):
    world = World(sim)
    pool = []
    for s in sc["fns"]:
        f, script = F.make(sim, s)
        arts = s["kind"].startswith("art")
        if s["wrap"] == "rec":
            f, arts = recorder(f), False
        elif s["wrap"] == "aug":
            f, arts = augment_cost_function(f, [function_logger(logger=QUIET)]), False
        pool.append(dict(f=f, script=script, arts=arts, wrap=s["wrap"], grad=s["kind"].endswith("+g"), active=0))
    opts = [Opt(world, s) for s in sc["opts"]]
    results = []  # (result, expected) of every finished minimization, rechecked at the end
    aborted = set()

    def client(c, ops):
        me = "c%d" % c

        def begin(fn, plan):
            world.by_task[me] = dict(script=fn["script"], list=[], plan=plan)
            fn["active"] += 1
            if fn["active"] > 1:
                sim.probe("shared-function-concurrent")

        def run():
            for op in ops:
                sim.stats[op["op"]] += 1
                opt = opts[op["opt"] % len(opts)]
                spec = opt.spec
                x0 = np.array([0.5] * op["dim"])
                if op["op"] == "min":
                    fn = pool[op["fn"] % len(pool)]
                    begin(fn, op["plan"])
                    if fn["wrap"]:
                        sim.probe("already-a-recorder" if fn["wrap"] == "rec" else "augmented")
                    try:
                        r = opt.minimize(fn["f"], x0, **({} if op.get("default") and not op["keep"] else dict(keep_history=op["keep"])))
                    except InjectedError as e:
                        sim.check(any(e is x for x in fn["script"].raised), "error-changed", "the cost function's error did not come through", "error-changed")
                        sim.probe("aborted")
                        aborted.add(me)
                        continue
                    finally:
                        fn["active"] -= 1
                    ev = world.by_task[me]["list"]
                    if me in aborted:
                        sim.probe("after-abort")
                    grad = fn["grad"] or spec["kind"] == "fd"
                    want = dict(history=select(ev, "f", spec["rec"], fn["arts"]) if op["keep"] else [])
                    if op["keep"] and grad:
                        want["gradient_history"] = select(ev, "g", spec["rec"])
                    if spec["rec"]:
                        sim.probe("custom-recorder")
                    sim.probe("kept" if op["keep"] else "not-kept")
                    want["arts"] = fn["arts"]
                    results.append((r, want, "minimize"))
                    check_result(sim, r, want, "minimize")
                    if op.get("extend"):
                        # the result belongs to the caller, who adds to the lists in it
                        sim.probe("result-extended")
                        for name in ("history", "gradient_history"):
                            if isinstance(r.get(name), list) and name in want:
                                r[name].append(HistoryEntry(-1 - c, x0, 0.25 * c))
                                want[name].append((-1 - c, x0, 0.25 * c, {}))
                elif op["op"] == "nested":
                    fns = [pool[i % len(pool)] for i in op["fns"]]
                    per = [[] for _ in fns]
                    cur = []

                    def factory(i, fns=fns, per=per, cur=cur):
                        while cur:
                            cur.pop()["active"] -= 1
                        begin(fns[i], op["plan"][: max(1, len(op["plan"]) - i)])
                        world.by_task[me]["list"] = per[i]
                        cur.append(fns[i])
                        return fns[i]["f"]

                    n = MockNestedOptimizer(opt, len(fns), nth(op["rec"])) if op["mock"] else Nested(opt, len(fns), nth(op["rec"]))
                    sim.probe("nested")
                    try:
                        r = n.minimize(factory, x0, keep_history=op["keep"])
                    except InjectedError:
                        sim.probe("aborted")
                        aborted.add(me)
                        continue
                    finally:
                        while cur:
                            cur.pop()["active"] -= 1
                    # an evaluation made while the inner optimizer's own preprocessing adds a gradient goes through the recorder as function calls only
                    if spec["kind"] == "fd" and not all(f["grad"] for f in fns):
                        continue
                    if len({f["grad"] for f in fns}) > 1:
                        sim.probe("nested-mixed-kinds")
                    want = dict(history=sum((select(e, "f", op["rec"], f["arts"]) for e, f in zip(per, fns)), []) if op["keep"] else [], arts=None)
                    if op["keep"] and any(f["grad"] for f in fns):
                        want["gradient_history"] = sum((select(e, "g", op["rec"]) for e, f in zip(per, fns) if f["grad"]), [])
                    results.append((r, want, "nested minimize"))
                    check_result(sim, r, want, "nested minimize")
                else:
                    # merge recorders' histories directly, twice from the same prefix
                    recs, models = [], []
                    for i in op["fns"]:
                        fn = pool[i % len(pool)]
                        begin(fn, [])
                        rec = nth(op["rec"])(fn["f"])
                        ev = []
                        for k, (kind, v) in enumerate(op["plan"][:6]):
                            if kind == "g" and not fn["grad"]:
                                continue
                            p = x0.copy()
                            p[k % len(p)] = v
                            try:
                                val = rec(p) if kind == "f" else rec.gradient(p)
                            except InjectedError:
                                continue
                            ev.append((kind, p.copy(), returned(val), fn["script"].done[-1][3] if kind == "f" else {}))
                        fn["active"] -= 1
                        recs.append(rec)
                        models.append((select(ev, "f", op["rec"], fn["arts"]), select(ev, "g", op["rec"]) if fn["grad"] else None))
                    b = op["branch"] % len(recs)
                    states = [({"history": []}, ([], None))]
                    for rec, (mh, mg) in zip(recs, models):
                        h, (wh, wg) = states[-1]
                        states.append((extend_histories(rec, h), (wh + mh, wg if mg is None else (wg or []) + mg)))
                    h, (wh, wg) = states[b]
                    other = extend_histories(recs[-1], h), (wh + models[-1][0], wg if models[-1][1] is None else (wg or []) + models[-1][1])
                    sim.probe("merge-branch")
                    for hs, (wh, wg) in states[1:] + [other]:
                        want = dict(history=wh, arts=None)
                        if wg is not None:
                            want["gradient_history"] = wg
                        results.append((hs, want, "merged histories"))
                        check_result(sim, hs, want, "merged histories")
        return run

    sim.run_tasks([("c%d" % i, client(i, ops)) for i, ops in enumerate(sc["clients"])])
    for r, want, what in results:
        check_result(sim, r, want, what + ", looked at after all minimizations")


def check_result(sim, r, want, what):
    check_list(sim, r["history"], want["history"], "history", what, want["arts"])
    if "gradient_history" in want:
        sim.check("gradient_history" in r, "gradient-history-missing", lambda: "%s: no gradient history; expected %d entries" % (what, len(want["gradient_history"])), "gradient-history-missing")
        sim.probe("gradient-history")
        check_list(sim, r["gradient_history"], want["gradient_history"], "gradient_history", what, False)
    elif "gradient_history" in r:
        sim.check(len(r["gradient_history"]) == 0, "gradient-history-extra", lambda: "%s: gradient history of a run without gradient evaluations" % what, "gradient-history-extra")


def check_list(sim, hist, want, name, what, arts):
    sim.check(isinstance(hist, list) or hasattr(hist, "__len__"), "history-type", "%s: %s is a %s" % (what, name, type(hist).__name__), "history-type")
    sim.check(len(hist) == len(want), "history-length", lambda: "%s: %s has %d entries, the optimizer made %d: %s vs %s" % (what, name, len(hist), len(want), brief(hist), brief(want)), name + "-length")
    for i, (h, w) in enumerate(zip(hist, want)):
        bad = []
        if h.call_number != w[0]:
            bad.append("call_number %s != %s" % (h.call_number, w[0]))
        if not F.exact(h.params, w[1]):
            bad.append("params %s != %s" % (h.params, w[1]))
        if not F.exact(h.value, w[2]):
            bad.append("value %s != %s" % (h.value, w[2]))
        if w[0] >= 0 and (arts or arts is None and hasattr(h, "artifacts")):
            if dict(h.artifacts) != {k: v for k, (v, _) in w[3].items()}:
                bad.append("artifacts %s != %s" % (h.artifacts, w[3]))
        sim.check(not bad, "history-entry", lambda: "%s: %s entry %d: %s" % (what, name, i, "; ".join(bad)), name + "-entry")
