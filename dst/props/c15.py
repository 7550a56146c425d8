"""C15: clients sharing objects get the results they would get alone."""
import random

import numpy as np

import share15 as H
from kernel import injected

ID = "C15"
RUNS = {"quick": 1500, "thorough": 100000}
RULE = ("each run: 2-4 clients with drawn histories over %d operations on a pool of shared circuits, operators, tensors, tasks, parameter arrays, states, distributions, graphs, specifications, backends, ansatzes and cost functions; "
        "interleaved at every call that leaves the library, failures injected at drawn ones, results changed in place by the client that got them; every operation also executed alone on a fresh pool; non-trivial = a client switch or failure happened" % len(H.NAMES))
REAL = ["circuits, estimation, cost functions, gradients, backends' base classes, measurement, wavefunction, distribution, graph, hamiltonian, openfermion, evolution"]
STUB = ["execution engine of the shared backends (deterministic per circuit)", "user functions and preprocessors wrapped to yield or fail", "client scheduling"]
ASSUMPTIONS = ["functions documented or tested to work in place (expectation_values_to_real, normalize_measurement_outcome_distribution, +=) are not called on shared objects", "a client changes in place only containers and arrays it received as results"]
PROBES = ["fail", "switch-inside", "shared-object", "same-op-twice", "mutated-result", "cost-shared", "backend-shared", "ansatz-shared", "raised-alone"]


def generate(rng, tier):
    names = H.NAMES
    focus = rng.choice([None, None, "cost", "est", "poly"])
    if focus == "cost":
        names = [n for n in names if "cost" in n or n in ("executable", "averaging", "exact_est", "run_set", "wavefunction_from", "fd_gradient", "bind_tasks", "iterate_terms")]
    elif focus == "est":
        names = [n for n in names if any(k in n for k in ("alloc", "group", "context", "averag", "exact", "task", "h_", "ev", "meas", "pariti", "iterate"))]
    elif focus == "poly":
        names = [n for n in names if any(k in n for k in ("poly", "int_", "f_", "rdm", "q_", "i_", "iterate", "sparse", "dense"))]
    clients = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        clients.append([dict(name=rng.choice(names), pick=[rng.randrange(3 if rng.random() < 0.4 else 1) for _ in range(7)], fail=rng.choice([None] * 5 + [0, 1, 2, 4]), spoil=rng.random() < 0.4)
                        for _ in range(rng.choice([2, 3, 5]))])
    if rng.random() < 0.4:  # several clients in the very same operation
        for c in clients[1:]:
            c[0] = dict(clients[0][0], fail=c[0]["fail"])
    return dict(pool=rng.randrange(10 ** 6), clients=clients, sched=[rng.randrange(4) if rng.random() < 0.6 else 0 for _ in range(rng.choice([0, 40, 150]))])


class World:
    """The pool and the way out of the library."""

    def __init__(self, sim, seed):
        self.sim = sim
        self.seed = seed
        self.objects = {}
        self.prints = {}

    def get(self, kind, i):
        key = (kind, i)
        if key not in self.objects:
            r = random.Random("%s-%s-%s" % (self.seed, kind, i))
            o = H.BUILD[kind](r, self)
            self.objects[key] = o
            self.prints[key] = H.fp(o)
        return self.objects[key]

    def out(self, what):
        t = self.sim.current
        self.sim.event(what)
        if self.sim.current is not t:
            raise RuntimeError("scheduler")
        call = t.local.get("call")
        if call is None:
            return
        n = call["n"]
        call["n"] += 1
        if call["fail"] is not None and n == call["fail"]:
            self.sim.fault("fail@" + what)
            raise injected(self.sim, "%s %d" % (what, n))


def perform(world, op, spoil=True):
    """(outcome, fingerprint) of one operation; the objects it was given."""
    f, kinds, kw = H.OPS[op["name"]]
    args = [world.get(k, i) for k, i in zip(kinds, op["pick"])]
    t = world.sim.current
    t.local["call"] = dict(n=0, fail=op["fail"])
    # tie-breaking draws inside an operation start from the same state alone and in company
    random.seed(7)
    np.random.seed(7)
    try:
        res = f(world, *args)
        image = ("ok", H.fp(res))
        if op["spoil"] and spoil:
            H.spoil(res, list(world.objects.values()))
    except Exception as e:
        image = ("raised", type(e).__name__, str(e)[:200])
    t.local["call"] = None
    return image


GATES = H.gate_table()


def execute(sim, sc):
    alone = {}
    for ci, ops in enumerate(sc["clients"]):
        for j, op in enumerate(ops):
            def solo(op=op, key=(ci, j)):
                alone[key] = perform(World(sim, sc["pool"]), op, False)
            sim.run_tasks([("alone%d-%d" % (ci, j), solo)])
            if alone[ci, j][0] == "raised" and not alone[ci, j][1].startswith("Injected"):
                sim.probe("raised-alone")
    world = World(sim, sc["pool"])
    uses = {}

    def unchanged(when, sig):
        for key in list(world.objects):
            now = H.fp(world.objects[key])
            sim.check(now == world.prints[key], "shared-object-changed", lambda: "%s: shared %s is now %s, was %s" % (when, key, str(now)[:600], str(world.prints[key])[:600]), "changed:%s" % sig)

    def client(ci, ops):
        def go():
            for j, op in enumerate(ops):
                sim.event("op", op["name"])
                sim.stats["ops"] += 1
                before = sim.switches
                for k, i in zip(H.OPS[op["name"]][1], op["pick"]):
                    users = uses.setdefault((k, i), set())
                    if users - {ci}:
                        sim.probe("shared-object")
                        for n in ("cost", "backend", "ansatz"):
                            if k == n:
                                sim.probe(n + "-shared")
                    users.add(ci)
                got = perform(world, op)
                if sim.switches > before:
                    sim.probe("switch-inside")
                if op["spoil"]:
                    sim.probe("mutated-result")
                if got[0] == "raised" and got[1].startswith("Injected"):
                    sim.probe("fail")
                sim.log("result", H.short(got))
                want = alone[ci, j]
                sim.check(got == want, "result-differs", lambda: "%s %s by client %d gave %s, alone %s" % (op["name"], op["pick"], ci, diff(got, want), diff(want, got)), "result:" + op["name"])
                unchanged("after %s by client %d" % (op["name"], ci), op["name"])
        return go

    firsts = [c[0]["name"] for c in sc["clients"]]
    if len(set(firsts)) < len(firsts):
        sim.probe("same-op-twice")
    sim.run_tasks([("c%d" % i, client(i, ops)) for i, ops in enumerate(sc["clients"])])
    unchanged("at the end", "end")
    if any(o["name"] in H.GATE_OPS for ops in sc["clients"] for o in ops):
        now = H.gate_table()
        bad = sorted(k for k in now if now[k] != GATES[k])
        if bad:
            GATES.update(now)
        sim.check(not bad, "built-in-changed", lambda: "the built-in gates %s have other matrices than at the start" % bad, "built-in-gates")


def diff(a, b):
    s, t = repr(a), repr(b)
    i = next((i for i, (x, y) in enumerate(zip(s, t)) if x != y), min(len(s), len(t)))
    return "..." + s[max(0, i - 200):i + 300]
