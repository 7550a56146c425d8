"""C11: estimation by averaging measures each task once and answers in order."""
import random

import numpy as np

import artifacts as A
import stubs
from kernel import InjectedError, Violation
import sympy
from zquantum.core.circuits import RX, RZ, Circuit
from zquantum.core.estimation import allocate_shots_proportionally, allocate_shots_uniformly, estimate_expectation_values_by_averaging, evaluate_estimation_circuits, group_greedily, group_individually, perform_context_selection
from zquantum.core.interfaces.estimation import EstimationTask
from zquantum.core.measurement import ExpectationValues
from zquantum.core.openfermion import IsingOperator, QubitOperator

ID = "C11"
RUNS = {"quick": 8000, "thorough": 200000}
RULE = ("each run: 1-3 interleaved clients estimating 1-3 generated task lists (constants, zero shots, shared circuits, Ising and qubit operators, preprocessed and re-allocated tasks) on private or shared plain, "
        "batching or simulator backends that return arbitrary shots and fail on request, with retries; non-trivial = a backend failure or a client switch happened")
REAL = ["estimate_expectation_values_by_averaging", "split_estimation_tasks_to_measure", "allocate_shots_uniformly / proportionally", "group_individually", "group_greedily", "perform_context_selection",
        "evaluate_estimation_circuits",
        "Measurements.get_expectation_values", "QuantumBackend base class"]
STUB = ["circuit execution (arbitrary shots, sometimes more or fewer than requested)", "client scheduling"]
ASSUMPTIONS = ["proportional allocation is asked for at least one task with a non-constant term of non-zero variance", "measured tasks have a positive number of shots, or none given (the backend then decides), and a non-empty operator"]
PROBES = ["measured", "constant", "zero-shots", "constant-zero-shots", "shared-circuit", "only-constants", "empty", "backend-failed", "retry", "batch", "wrong-shot-number", "concurrent", "proportional", "uniform",
          "with-priors", "zero-share", "bound-each", "bound-one", "bound-dict", "grouped", "context-selected", "interspersed", "own-shot-number", "bound-shared", "bound-exchanged"]


def generate(rng, tier):
    backends = [dict(kind=rng.choice(["plain", "plain", "batch", "sim"]), seed=rng.randrange(1000), batch=rng.choice([1, 2, 3, 5]), skew=rng.choice([0, 0, -1, 3]),
                     fail=sorted(rng.sample(range(20), rng.choice([0, 0, 1, 3])))) for _ in range(rng.choice([1, 1, 2]))]
    lists = []
    for _ in range(rng.choice([1, 2, 3])):
        tasks = []
        for _ in range(rng.choice([0, 1, 2, 3, 5, 8] * 12 + [40])):
            tasks.append(dict(c=rng.randrange(4), kind=rng.choice(["ising", "ising", "qubit", "const", "const", "pauli"]), n=rng.choice([0, 0, 1, 2, 5, 9, 13]), seed=rng.randrange(10 ** 6), none=rng.random() < 0.12))
        lists.append(tasks)
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        clients.append([dict(t=rng.randrange(3), b=rng.randrange(2), pre=rng.choice(["", "", "", "uniform", "prop", "prop", "single", "greedy"]), total=rng.choice([1, 2, 7, 10, 33, 100, 1000]), prior=rng.random() < 0.4,
                             pseed=rng.randrange(1000), bind=rng.choice(["", "", "", "each", "each", "one", "dict"]), retry=rng.random() < 0.6) for _ in range(rng.choice([1, 2, 3, 4]))])
    return dict(backends=backends, lists=lists, clients=clients, circuits=[rng.randrange(10 ** 6) for _ in range(4)], sched=[rng.randrange(3) if rng.random() < 0.5 else 0 for _ in range(rng.choice([0, 60, 150]))])


OWN_SHOTS = 6       # of backends that are given no number of shots


class Tagging:
    """Mixed into a stub backend: every execution with who asked and what came out."""

    def _execute(self, circuit, n):
        rec = [self.sim.current.name, circuit, n, None]
        self.executed.append(rec)
        if n is None:
            self.sim.probe("own-shot-number")
        m = super()._execute(circuit, OWN_SHOTS if n is None else n)
        rec[3] = list(m.bitstrings)
        if n is not None and len(rec[3]) != n:
            self.sim.probe("wrong-shot-number")
        return m


class Plain(Tagging, stubs.StubBackend):
    def run_circuit_and_measure(self, circuit, n_samples=None):
        stubs.QuantumBackend.run_circuit_and_measure(self, circuit, OWN_SHOTS if n_samples is None else n_samples)
        return self._execute(circuit, n_samples)


class Batch(Tagging, stubs.StubBatchBackend):
    pass


class Simulated(stubs.StubSimulator):
    def run_circuit_and_measure(self, circuit, n_samples=None):
        super(stubs.StubSimulator, self).run_circuit_and_measure(circuit, OWN_SHOTS if n_samples is None else n_samples)
        rec = [self.sim.current.name, circuit, n_samples, None]
        self.executed.append(rec)
        self.sim.event("backend")
        i = self.inj.hit("backend")
        rec[3] = stubs.draw_bits(self.seed, i, circuit.n_qubits, OWN_SHOTS if n_samples is None else n_samples)
        return stubs.Measurements(list(rec[3]))


WIDTH = 3
THETA, PHI = sympy.symbols("theta phi")


def make_operator(kind, seed):
    r = random.Random(seed)
    if kind == "const":
        return (IsingOperator if r.random() < 0.5 else QubitOperator)((), round(r.uniform(-3, 3), 3))
    cls = IsingOperator if kind == "ising" else QubitOperator
    o = cls()
    for _ in range(r.randrange(1, 4)):
        qs = sorted(r.sample(range(WIDTH), r.randrange(1 if not o.terms else 0, WIDTH + 1)))
        o += cls(tuple((q, r.choice("XYZ") if kind == "pauli" else "Z") for q in qs), round(r.uniform(0.1, 3), 3) * r.choice([1, -1]))
    return o


def is_constant(op):
    return list(op.terms) == [()]


def expected(op, bits):
    """Values, correlations and covariances of the estimate, straight from their definition."""
    terms = list(op.terms.items())
    n = len(bits)

    def mean(qs):
        return sum((-1) ** sum(b[q] for q in qs) for b in bits) / n
    qs = [frozenset(q for q, _ in t) for t, _ in terms]
    v = np.array([c * mean(q) for q, (_, c) in zip(qs, terms)], dtype=complex)
    corr = np.array([[ci * cj * mean(a ^ b) for b, (_, cj) in zip(qs, terms)] for a, (_, ci) in zip(qs, terms)], dtype=complex)
    return v, corr, (corr - np.outer(v, v)) / n


def execute(sim, sc):
    circuits = [stubs.n_circuit(s, WIDTH, 4, 1) for s in sc["circuits"]]
    lists = []
    for spec in sc["lists"]:
        tasks = []
        for s in spec:
            op = make_operator(s["kind"], s["seed"])
            n = s["n"]
            if s["none"]:
                n = None
            tasks.append(EstimationTask(op, circuits[s["c"] % 4], n))
        lists.append(tasks)
    marks = [[(t, t.operator, dict(t.operator.terms), t.circuit, list(t.circuit.operations), t.number_of_shots) for t in tasks] for tasks in lists]

    def unchanged(what):
        for tasks, mark in zip(lists, marks):
            ok = len(tasks) == len(mark) and all(
                t is m[0] and t.operator is m[1] and list(t.operator.terms.items()) == list(m[2].items()) and t.circuit is m[3] and len(t.circuit.operations) == len(m[4])
                and all(a is b for a, b in zip(t.circuit.operations, m[4])) and t.number_of_shots == m[5] for t, m in zip(tasks, mark))
            sim.check(ok, "tasks-changed", lambda: "%s changed the tasks: %s" % (what, A.brief(tasks)), "tasks-changed")

    backends = []
    for spec in sc["backends"]:
        if spec["kind"] == "plain":
            b = Plain(sim, spec["seed"], spec["fail"], spec["skew"])
        elif spec["kind"] == "batch":
            b = Batch(sim, spec["seed"], spec["fail"], spec["skew"], spec["batch"])
        else:
            b = Simulated(sim, spec["seed"], spec["fail"])
        b.executed = []
        b.users = 0
        backends.append(b)

    def prepare(op, base):
        """Tasks as the client derives them with the library's preprocessors."""
        tasks = [t for t in base]
        pre = op["pre"]
        if pre == "uniform":
            out = allocate_shots_uniformly(tasks, op["total"])
            sim.probe("uniform")
            sim.check(len(out) == len(tasks) and all(a.operator is b.operator and a.circuit is b.circuit and a.number_of_shots == op["total"] for a, b in zip(out, tasks)), "uniform-allocation",
                      lambda: "uniform allocation of %d shots to %s gives %s" % (op["total"], A.brief(tasks), A.brief(out)), "uniform")
            tasks = out
        elif pre == "prop":
            prior = None
            if op["prior"]:
                r = random.Random(op["pseed"])
                vals = [1.0 if t == () else round(r.uniform(-1, 1), 3) for k in tasks for t in k.operator.terms]
                prior = ExpectationValues(np.array(vals))
                it = iter(vals)
                var = [sum(abs(c) ** 2 * (1 - next(it) ** 2) for c in k.operator.terms.values()) for k in tasks]
            else:
                var = [sum(abs(c) ** 2 for t, c in k.operator.terms.items() if t != ()) for k in tasks]
            if not sum(var) > 1e-9:
                return tasks
            out = allocate_shots_proportionally(tasks, op["total"], prior)
            sim.probe("proportional")
            if prior is not None:
                sim.probe("with-priors")
            w = np.sqrt(np.array(var, dtype=float))
            share = op["total"] * w / w.sum()
            got = [t.number_of_shots for t in out]
            sim.check(len(out) == len(tasks) and all(a.operator is b.operator and a.circuit is b.circuit for a, b in zip(out, tasks)), "allocation-tasks", lambda: "allocation of %s gives %s" % (A.brief(tasks), A.brief(out)),
                      "allocation-tasks")
            sim.check(sum(got) == op["total"], "allocation-total", lambda: "allocating %d shots over %s gives %s" % (op["total"], share, got), "allocation-total")
            sim.check(all(g == int(g) and g >= 0 and abs(g - s) < 1 + 1e-6 for g, s in zip(got, share)), "allocation-share", lambda: "exact shares %s, allocated %s" % (share, got), "allocation-share")
            if 0 in got:
                sim.probe("zero-share")
            tasks = out
        elif pre == "single":
            tasks = group_individually(tasks)
            sim.probe("grouped")
        elif pre == "greedy" and all(isinstance(t.operator, QubitOperator) for t in tasks):
            tasks = group_greedily(tasks, sort_terms=op["prior"])
            sim.probe("grouped")
        unchanged("preparing tasks (%s)" % pre)
        if any(isinstance(t.operator, QubitOperator) and any(p != "Z" for term in t.operator.terms for _, p in term) for t in tasks):
            # general Pauli terms: one task per term, rotated to the measurement basis
            ising = [t for t in tasks if isinstance(t.operator, IsingOperator)]
            tasks = ising + perform_context_selection(group_individually([t for t in tasks if not isinstance(t.operator, IsingOperator)]))
            sim.probe("context-selected")
        unchanged("preparing tasks (%s)" % pre)
        how = op.get("bind")
        if how and tasks:
            # circuits with free symbols, bound by one set of values or one per task
            r = random.Random(op["pseed"] + 1)
            symbolic = {}
            for t in tasks:
                if id(t.circuit) in symbolic:
                    sim.probe("bound-shared")
                else:
                    symbolic[id(t.circuit)] = Circuit(list(t.circuit.operations) + [RX(THETA)(r.randrange(WIDTH)), RZ(PHI * 2 + THETA)(r.randrange(WIDTH))], n_qubits=t.circuit.n_qubits)
            tasks = [EstimationTask(t.operator, symbolic[id(t.circuit)], t.number_of_shots) for t in tasks]
            maps = []
            for _ in tasks:
                m = {THETA: round(r.uniform(-3, 3), 3), PHI: round(r.uniform(-3, 3), 3)}
                x = r.random()
                if maps and x < 0.5:
                    # The values of another task: the same, exchanged or nearly the same ones
                    was = dict(r.choice(maps))
                    m = was
                    if x < 0.3:
                        m = {PHI: was[THETA], THETA: was[PHI]} if r.random() < 0.6 else {THETA: was[PHI], PHI: was[THETA]}
                        sim.probe("bound-exchanged")
                    elif x < 0.4:
                        m[r.choice([THETA, PHI])] += 1e-9
                elif x < 0.6:
                    m = {PHI: m[PHI], THETA: m[THETA]}
                maps.append(m)
            if how != "each":
                maps = [maps[0]] * len(tasks)
            sim.probe("bound-" + how)
            given = maps if how == "each" else maps[:1] if how == "one" else maps[0]
            copy = [dict(m) for m in maps]
            wanted = [t.circuit.bind(m) for t, m in zip(tasks, maps)]
            bound = evaluate_estimation_circuits(tasks, given)
            sim.check(maps == copy and not any(t.circuit.free_symbols == [] for t in tasks), "binding-changed-input", lambda: "binding circuits changed the tasks or values given: %s" % A.brief(tasks), "binding-changed-input")
            sim.check(len(bound) == len(tasks), "binding-lost-tasks", lambda: "%d tasks with %s values gives %d" % (len(tasks), how, len(bound)), "binding-lost-tasks")
            for t, b, m, want in zip(tasks, bound, maps, wanted):
                sim.check(b.operator is t.operator and b.number_of_shots == t.number_of_shots and b.circuit == want, "bound-task", lambda: "%s with %s gives %s" % (A.brief(t), m, A.brief(b)), "bound-task")
            tasks = list(bound)
        return tasks

    def client(c, ops):
        me = "c%d" % c

        def run():
            for op in ops:
                tasks = prepare(op, lists[op["t"] % len(lists)])
                tasks = [t for t in tasks if t.operator.terms]
                b = backends[op["b"] % len(backends)]
                for k in range(1 + op["retry"]):
                    if k:
                        sim.probe("retry")
                    if attempt(b, tasks):
                        break

        def attempt(b, tasks):
            sim.stats["estimate"] += 1
            before = [(t.operator, dict(t.operator.terms), t.circuit, t.number_of_shots) for t in tasks]
            mark = len(b.executed)
            b.users += 1
            if b.users > 1:
                sim.probe("concurrent")
            err = None
            try:
                got = estimate_expectation_values_by_averaging(b, tasks)
            except InjectedError as e:
                err = e
                sim.probe("backend-failed")
            finally:
                b.users -= 1
            sim.check(len(tasks) == len(before) and all(t.operator is m[0] and dict(t.operator.terms) == m[1] and t.circuit is m[2] and t.number_of_shots == m[3] for t, m in zip(tasks, before)), "tasks-changed",
                      "estimating changed the tasks", "tasks-changed")
            unchanged("estimating")
            mine = [x for x in b.executed[mark:] if x[0] == me]
            need = [t for t in tasks if not is_constant(t.operator) and t.number_of_shots != 0]
            left = list(need)
            for _, circuit, n, _ in mine:
                hit = next((t for t in left if t.circuit is circuit and t.number_of_shots == n), None) or next((t for t in left if t.circuit == circuit and t.number_of_shots == n), None)
                sim.check(hit is not None, "unexpected-submission", lambda: "submitted %s with %s shots; tasks to measure: %s" % (circuit, n, A.brief([(t.circuit, t.number_of_shots) for t in need])), "unexpected-submission")
                left.pop(next(i for i, t in enumerate(left) if t is hit))
            if err is not None:
                return False
            sim.check(not left, "not-submitted", lambda: "%d tasks were not measured" % len(left), "not-submitted")
            sim.check(len(got) == len(tasks), "result-count", lambda: "%d tasks, %d results" % (len(tasks), len(got)), "result-count")
            if not tasks:
                sim.probe("empty")
            elif not need:
                sim.probe("only-constants")
            if 0 < len(need) < len(tasks) and tasks[0] is not need[0]:
                sim.probe("interspersed")
            if len({id(t.circuit) for t in need}) < len(need):
                sim.probe("shared-circuit")
            if isinstance(b, Batch):
                sim.probe("batch")
            unused = list(mine)
            same_order = len(mine) == len(need) and all(x[1] is t.circuit and x[2] == t.number_of_shots for x, t in zip(mine, need))
            k = 0
            for i, (t, ev) in enumerate(zip(tasks, got)):
                if is_constant(t.operator) or t.number_of_shots == 0:
                    want = t.operator.terms[()] if is_constant(t.operator) else 0.0
                    sim.probe("constant" if t.number_of_shots else "constant-zero-shots" if is_constant(t.operator) else "zero-shots")
                    sim.check(ev is not None and abs(np.sum(ev.values) - want) < 1e-12, "unmeasured-result", lambda: "task %d %s with %s shots gives %s, expected %s" % (i, t.operator, t.number_of_shots, ev and ev.values, want),
                              "unmeasured-result")
                    continue
                sim.probe("measured")
                if same_order:
                    sim.check(matches(t.operator, mine[k][3], ev), "result-differs", lambda: "task %d (%s, shots %s): values %s correlations %s covariances %s, expected %s" % (
                        i, t.operator, A.brief(mine[k][3]), ev.values, ev.correlations, ev.estimator_covariances, expected(t.operator, mine[k][3])), "result")
                    k += 1
                    continue
                hit = next((x for x in unused if x[1] == t.circuit and x[2] == t.number_of_shots and matches(t.operator, x[3], ev)), None)
                sim.check(hit is not None, "result-differs", lambda: "task %d (%s) gives %s, which none of its measurements explains" % (i, t.operator, ev.values), "result")
                unused.pop(next(j for j, x in enumerate(unused) if x is hit))
            return True
        return run

    sim.run_tasks([("c%d" % i, client(i, ops)) for i, ops in enumerate(sc["clients"])])


def matches(op, bits, ev):
    v, corr, cov = expected(op, bits)
    return (len(ev.values) == len(v) and np.allclose(ev.values, v.real, atol=1e-9) and len(ev.correlations) == 1 and np.allclose(ev.correlations[0], corr, atol=1e-9)
            and len(ev.estimator_covariances) == 1 and np.allclose(ev.estimator_covariances[0], cov, atol=1e-9))
