"""C09: backends run every circuit once, in order, with exact accounting."""
import math

import sympy

import artifacts as A
import stubs
from kernel import InjectedError, Violation, describe_exc
from zquantum.core.circuits import RX, Circuit
from zquantum.core.interfaces.mock_objects import MockQuantumBackend
from zquantum.core.symbolic_simulator import SymbolicSimulator

ID = "C09"
RUNS = {"quick": 12000, "thorough": 300000}
RULE = ("each run: 1-3 interleaved clients over 1-2 private or shared backends (plain, batching, simulator, SymbolicSimulator, MockQuantumBackend) with histories of single, set and distribution requests, "
        "failing executions, rejected sample numbers and retries; non-trivial = a failure, rejection or client switch happened")
REAL = ["QuantumBackend / QuantumSimulator base classes", "SymbolicSimulator (some runs)", "MockQuantumBackend (some runs)", "Measurements"]
STUB = ["circuit execution of plain, batching and scripted backends", "client scheduling"]
ASSUMPTIONS = ["circuits have at least one operation (an empty circuit needs no native run on a simulator)", "circuits and sample numbers of a set have equal lengths"]
PROBES = ["single", "set", "set-failed-midway", "set-rejected-midway", "batch-set", "batch-failed", "rejected", "retry", "distribution", "shared-backend", "concurrent", "symbolic", "unbound-circuit", "mock", "empty-set",
          "partial-last-batch"]


def generate(rng, tier):
    nb = rng.choice([1, 1, 2])
    backends = [dict(kind=rng.choice(["plain", "plain", "batch", "batch", "sim", "symbolic", "mock"]), seed=rng.randrange(1000), batch=rng.choice([1, 2, 3, 5]),
                     fail=sorted(rng.sample(range(25), rng.choice([0, 0, 1, 4])))) for _ in range(nb)]
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            op = dict(op=rng.choice(["single", "set", "set", "dist", "bdist"]), b=rng.randrange(2), tup=rng.random() < 0.3, retry=rng.random() < 0.5, kw=rng.random() < 0.3, unbound=rng.random() < 0.1)
            n = rng.choice([0, 1, 2, 3, 4, 7] * 10 + [23, 70]) if op["op"] == "set" else 1
            op["items"] = [[rng.randrange(4), rng.choice([1, 2, 5, 9]) if rng.random() < 0.9 else rng.choice([0, -1])] for _ in range(n)]
            ops.append(op)
        clients.append(ops)
    return dict(backends=backends, clients=clients, circuits=[rng.randrange(10 ** 6) for _ in range(4)], sched=[rng.randrange(3) if rng.random() < 0.5 else 0 for _ in range(rng.choice([0, 60, 150]))])


class Recording:
    """Mixed into a backend under test: which circuits it is asked to execute, per client."""

    def begin(self, circuit, n, rest):
        entry = [self.sim.current.name, circuit, n, False]
        self.executed.append(entry)
        try:
            return rest()
        except InjectedError:
            entry[3] = True
            raise


class Plain(Recording, stubs.StubBackend):
    def _execute(self, circuit, n):
        return self.begin(circuit, n, lambda: super(Recording, self)._execute(circuit, n))


class Batch(Recording, stubs.StubBatchBackend):
    def _execute(self, circuit, n):
        return self.begin(circuit, n, lambda: super(Recording, self)._execute(circuit, n))


class Scripted(Recording, stubs.StubSimulator):
    def run_circuit_and_measure(self, circuit, n_samples):
        super(stubs.StubSimulator, self).run_circuit_and_measure(circuit, n_samples)
        return self.begin(circuit, n_samples, lambda: self.draw(circuit, n_samples))

    def draw(self, circuit, n_samples):
        self.sim.event("backend")
        i = self.inj.hit("backend")
        return stubs.Measurements(stubs.draw_bits(self.seed, i, circuit.n_qubits, n_samples))


class Symbolic(Recording, SymbolicSimulator):
    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        def rest():
            self.sim.event("engine")
            self.inj.hit("engine")
            return super(Symbolic, self)._get_wavefunction_from_native_circuit(circuit, initial_state)
        return self.begin(circuit, None, rest)


class Mock(Recording, MockQuantumBackend):
    pass


def make(sim, spec):
    k = spec["kind"]
    if k == "plain":
        b = Plain(sim, spec["seed"], spec["fail"])
    elif k == "batch":
        b = Batch(sim, spec["seed"], spec["fail"], 0, spec["batch"])
    elif k == "sim":
        b = Scripted(sim, spec["seed"], spec["fail"])
    elif k == "symbolic":
        b = Symbolic(seed=spec["seed"])
    else:
        b = Mock()
        b._simulator = Symbolic(seed=spec["seed"])
        b._simulator.sim, b._simulator.inj, b._simulator.executed = sim, stubs.Injections(sim, spec["fail"]), []
    b.sim = sim
    b.executed = b._simulator.executed if k == "mock" else []
    if k == "symbolic":
        b.inj = stubs.Injections(sim, spec["fail"])
    return b


def execute(sim, sc):
    circuits = [stubs.n_circuit(s, 1 + s % 3, 5, 1) for s in sc["circuits"]]
    unbound = Circuit([RX(sympy.Symbol("theta"))(0)], n_qubits=2)
    fps = [A.fp(c) for c in circuits]
    world = []
    for spec in sc["backends"]:
        world.append(dict(b=make(sim, spec), spec=spec, circuits=0, jobs=0, active=0, users=set()))

    def settled(w, what):
        if w["active"]:
            return
        b = w["b"]
        sim.check(b.number_of_circuits_run == w["circuits"], "circuit-count", lambda: "%s: backend counts %s circuits, %d were submitted" % (what, b.number_of_circuits_run, w["circuits"]), "circuit-count")
        sim.check(b.number_of_jobs_run == w["jobs"], "job-count", lambda: "%s: backend counts %s jobs, %d were submitted" % (what, b.number_of_jobs_run, w["jobs"]), "job-count")

    def client(c, ops):
        me = "c%d" % c

        def run():
            for op in ops:
                w = world[op["b"] % len(world)]
                w["users"].add(me)
                if len(w["users"]) > 1:
                    sim.probe("shared-backend")
                attempt(w, op)
                if op["retry"]:
                    sim.probe("retry")
                    attempt(w, op)

        def attempt(w, op):
            b, kind = w["b"], w["spec"]["kind"]
            sim.stats[op["op"]] += 1
            items = [(circuits[i], n) for i, n in op["items"]]
            ubn = op["unbound"] and kind in ("symbolic", "mock") and bool(items)
            if ubn:
                items[-1] = (unbound, max(1, items[-1][1]))
                sim.probe("unbound-circuit")
            mark = len(b.executed)
            is_batch_set = kind == "batch" and op["op"] == "set"
            if is_batch_set:
                items = [(x, max(1, n)) for x, n in items]
                w["circuits"] += len(items)
                w["jobs"] += math.ceil(len(items) / w["spec"]["batch"])
                sim.probe("batch-set")
                if len(items) % w["spec"]["batch"]:
                    sim.probe("partial-last-batch")
            w["active"] += 1
            if w["active"] > 1:
                sim.probe("concurrent")
            err = got = None
            try:
                if op["op"] == "set":
                    cs, ns = [x for x, _ in items], [n for _, n in items]
                    if op["tup"]:
                        cs, ns = tuple(cs), tuple(ns)
                    got = b.run_circuitset_and_measure(circuits=cs, n_samples=ns) if op["kw"] else b.run_circuitset_and_measure(cs, ns)
                elif op["op"] == "single":
                    got = b.run_circuit_and_measure(circuit=items[0][0], n_samples=items[0][1]) if op["kw"] else b.run_circuit_and_measure(*items[0])
                elif op["op"] == "dist":
                    got = b.get_measurement_outcome_distribution(*items[0])
                else:
                    got = b.get_bitstring_distribution(*items[0])
            except InjectedError as e:
                err = e
            except ValueError as e:
                bad = any(n < 1 for _, n in items) or ubn
                if not bad:
                    raise
                err = e
            finally:
                w["active"] -= 1
            failed = [f for who, x, n, f in b.executed[mark:] if who == me]
            mine = [(x, n) for who, x, n, f in b.executed[mark:] if who == me]
            sim.check(not any(failed[:-1]), "runs-after-failure", lambda: "after circuit %d of %d failed %d more were executed" % (failed.index(True), len(items), len(failed) - 1 - failed.index(True)), "failed-runs")
            sim.check(not any(failed) or isinstance(err, InjectedError), "error-lost", lambda: "executing circuit %d of %d failed, the request returned" % (failed.index(True), len(items)), "error-lost")
            # what this request must have executed: everything up to and including the first rejected or failing circuit
            first_bad = next((i for i, (_, n) in enumerate(items) if n < 1), None)
            rejected = isinstance(err, ValueError) and not isinstance(err, InjectedError) and first_bad is not None and len(mine) == first_bad
            if isinstance(err, InjectedError):
                n_run = len(mine)
                sim.check(n_run >= 1 and (first_bad is None or n_run <= first_bad), "runs-after-failure", "the failing request executed %d circuits" % n_run, "failed-runs")
                if op["op"] == "set" and n_run < len(items):
                    sim.probe("batch-failed" if is_batch_set else "set-failed-midway")
            elif rejected:
                n_run = first_bad
                sim.probe("rejected")
                if op["op"] == "set" and n_run:
                    sim.probe("set-rejected-midway")
            elif err is not None:
                n_run = len(items)
                sim.check(ubn and len(mine) == n_run and first_bad is None, "wrongly-rejected", lambda: "%s after %d of %d circuits: %s" % (op["op"], len(mine), len(items), describe_exc(err)), "wrongly-rejected")
            else:
                sim.check(first_bad is None, "not-rejected", lambda: "a request for %s samples was not rejected" % [n for _, n in items], "not-rejected")
                n_run = len(items)
            if not is_batch_set:
                w["circuits"] += n_run
                w["jobs"] += n_run
            ok = len(mine) == n_run and all(x == y and (n is None or n == m) for (x, n), (y, m) in zip(mine, items))
            sim.check(ok, "executed-differs", lambda: "%s of %s executed %s" % (op["op"], A.brief([(i, n) for (i, n) in op["items"]]), A.brief(mine)), "executed-differs")
            settled(w, "after a %s request" % op["op"])
            if err is not None:
                return
            sim.probe({"set": "set", "single": "single"}.get(op["op"], "distribution"))
            if kind in ("symbolic", "mock"):
                sim.probe(kind)
            if not items:
                sim.probe("empty-set")
            if op["op"] == "single":
                got = [got]
            if op["op"] in ("single", "set"):
                sim.check(len(got) == len(items), "result-count", lambda: "%d circuits, %d results" % (len(items), len(got)), "result-count")
                for (x, n), m in zip(items, got):
                    sim.check(len(m.bitstrings) == n and all(len(s) == x.n_qubits for s in m.bitstrings), "result-differs", lambda: "asked %d samples of %d qubits, got %s" % (n, x.n_qubits, A.brief(m.bitstrings)), "result-shape")
                if kind in ("plain", "batch"):
                    want = own_results(b, me, mark)
                    sim.check([list(m.bitstrings) for m in got] == want, "results-out-of-order", lambda: "results %s, executions gave %s" % (A.brief([m.bitstrings for m in got]), A.brief(want)), "results-order")
            else:
                d = got.distribution_dict
                sim.check(abs(sum(d.values()) - 1) < 1e-9 and all(abs(v * items[0][1] - round(v * items[0][1])) < 1e-9 for v in d.values()), "distribution-differs",
                          lambda: "distribution %s from %d samples" % (d, items[0][1]), "distribution")
        return run

    def own_results(b, me, mark):
        # executions and their results are appended in the same order per client
        done = [i for i, (who, _, _, _) in enumerate(b.executed) if who == me and i >= mark]
        return [b.outcome[i] for i in done]

    for w in world:
        if w["spec"]["kind"] in ("plain", "batch"):
            b = w["b"]
            b.outcome = {}
            inner = b._execute

            def tagged(circuit, n, b=b, inner=inner):
                i = len(b.executed)
                m = inner(circuit, n)
                b.outcome[i] = list(m.bitstrings)
                return m
            b._execute = tagged

    sim.run_tasks([("c%d" % i, client(i, ops)) for i, ops in enumerate(sc["clients"])])
    for w in world:
        settled(w, "at the end")
    sim.check([A.fp(c) for c in circuits] == fps or all(A.same(A.fp(c), f) for c, f in zip(circuits, fps)), "circuit-changed", "running changed a circuit", "circuit-changed")
