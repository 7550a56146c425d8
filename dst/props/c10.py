"""C10: mixed native and non-native simulation is exact and accounted."""
import random

import numpy as np

import artifacts as A
import stubs
from kernel import InjectedError, Violation, describe_exc
from zquantum.core import circuits as zc
from zquantum.core.circuits import Circuit, MultiPhaseOperation
from zquantum.core.openfermion import IsingOperator, QubitOperator
from zquantum.core.symbolic_simulator import SymbolicSimulator

ID = "C10"
RUNS = {"quick": 5500, "thorough": 200000}
RULE = ("each run: 1-3 interleaved clients simulating 1-4 circuits of native, non-native and custom operations from default or given initial states on private or shared simulators whose native engine yields and "
        "fails on request, asking for states, expectation values and distributions, with retries; non-trivial = an engine or operation failure or a client switch happened")
REAL = ["QuantumSimulator.get_wavefunction", "get_exact_expectation_values", "get_measurement_outcome_distribution / get_bitstring_distribution without samples", "split_circuit", "gate and MultiPhase application",
        "SymbolicSimulator (some runs)"]
STUB = ["native engine (applies the operations itself, yields, fails on request)", "custom non-native operations", "client scheduling"]
ASSUMPTIONS = ["an engine run that fails was submitted and is counted", "reference states are computed by the harness from each operation's matrix or phases, not through the simulator"]
PROBES = ["mixed", "all-native", "none-native", "several-runs", "initial-state", "engine-failed", "operation-failed", "retry", "expectation", "ising", "exact-distribution", "shared-simulator", "concurrent", "multiphase",
          "custom-operation", "symbolic", "one-op-run"]


def generate(rng, tier):
    circuits = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        width = rng.choice([1, 2, 2, 3])
        circuits.append(dict(width=width, seed=rng.randrange(10 ** 6), kinds=[rng.choice("ggggmcC") for _ in range(rng.choice([1, 2, 3, 5, 8, 11] * 15 + [45, 70]))]))
    sims = [dict(kind=rng.choice(["stub", "stub", "stub", "symbolic"]), native=rng.choice(["default", "all", "none", "names", "names", "qubits", "params"]), seed=rng.randrange(1000),
                 fail=sorted(rng.sample(range(20), rng.choice([0, 0, 1, 4])))) for _ in range(rng.choice([1, 1, 2]))]
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            ops.append(dict(op=rng.choice(["wf", "wf", "wf", "exp", "dist", "bdist"]), s=rng.randrange(2), c=rng.randrange(4), init=rng.choice([None, None, "list", "array", "real", "tuple", "nearly", "tiny", "single"]), iseed=rng.randrange(1000),
                            ising=rng.random() < 0.4, opseed=rng.randrange(1000), retry=rng.random() < 0.5))
        clients.append(ops)
    return dict(circuits=circuits, sims=sims, clients=clients, cfail=sorted(rng.sample(range(12), rng.choice([0, 0, 1, 2]))), sched=[rng.randrange(3) if rng.random() < 0.5 else 0 for _ in range(rng.choice([0, 60, 150]))])


class Custom:
    """A user-defined non-gate operation: cyclic shift of the amplitudes, with a phase."""
    params = ()
    free_symbols = ()

    def __init__(self, inj, k, width):
        self.inj, self.k, self.width = inj, k, width

    qubit_indices = property(lambda self: tuple(range(self.width)))

    def bind(self, symbols_map):
        return self

    def replace_params(self, p):
        return self

    def apply(self, amplitude_vector):
        self.inj.sim.event("apply")
        self.inj.hit("operation")
        return np.roll(np.asarray(amplitude_vector), self.k) * np.exp(0.3j * self.k)

    def __repr__(self):
        return "Custom(%d)" % self.k


ORACLE = []  # (operation, matrix or callable), looked up by identity


def build(inj, spec):
    r = random.Random(spec["seed"])
    width, ops, ref = spec["width"], [], []
    for k in spec["kinds"]:
        if k == "m":
            th = [round(r.uniform(-3, 3), 3) for _ in range(2 ** width)]
            ops.append(MultiPhaseOperation(tuple(th)))
            ref.append(("diag", np.exp(1j * np.array(th))))
            inj.sim.probe("multiphase")
        elif k in "cC":
            n = r.randrange(1, 4)
            ops.append(Custom(inj, n, width))
            ref.append(("roll", n))
            inj.sim.probe("custom-operation")
        else:
            c = r.randrange(6)
            g = getattr(zc, r.choice(A.ONE_Q)) if c < 2 else getattr(zc, r.choice(["RX", "RY", "RZ", "PHASE"]))(round(r.uniform(-3, 3), 3)) if c < 4 else getattr(zc, r.choice(A.TWO_Q)) if c == 4 else r.choice(
                [zc.X.controlled(1), zc.T.dagger, zc.CPHASE(0.7), zc.XX(0.4)])
            if g.num_qubits > width:
                g = zc.H
            q = r.sample(range(width), g.num_qubits)
            ops.append(g(*q))
            ref.append(("gate", np.array(g.matrix.tolist(), dtype=complex), q))
    return Circuit(ops, n_qubits=width), ref


def apply_ref(ref, width, state):
    v = np.array(state, dtype=complex)
    for x in ref:
        if x[0] == "diag":
            v = v * x[1]
        elif x[0] == "roll":
            v = np.roll(v, x[1]) * np.exp(0.3j * x[1])
        else:
            m, q = x[1], x[2]
            k = len(q)
            t = v.reshape([2] * width)
            t = np.moveaxis(t, q, range(k)).reshape(2 ** k, -1)
            t = (m @ t).reshape([2] * width)
            v = np.moveaxis(t, range(k), q).reshape(-1)
    return v


def close(a, b, op):
    """Equal but for rounding (complex64 states may be computed with as they are)."""
    return np.shape(a) == np.shape(b) and np.max(np.abs(a - b), initial=0) < (1e-4 if op["init"] == "single" else 1e-11)


PAULI = dict(I=np.eye(2), X=np.array([[0, 1], [1, 0]]), Y=np.array([[0, -1j], [1j, 0]]), Z=np.diag([1, -1]))


def expectations(terms, width, v):
    out = []
    for term, coeff in terms:
        m = np.eye(1)
        d = dict(term)
        for q in range(width):
            m = np.kron(m, PAULI[d.get(q, "I")])
        out.append((coeff * (v.conj() @ (m @ v))).real)
    return out


def native_of(sim, spec):
    if spec["native"] == "default":
        return None
    if spec["native"] == "all":
        return lambda op: True
    if spec["native"] == "none":
        return lambda op: False
    table = {}

    def pred(op):
        if spec["native"] in ("qubits", "params"):
            # a connectivity or a parameter range of the native engine
            what = op.qubit_indices if spec["native"] == "qubits" else [str(p) for p in op.params]
            return random.Random("%s%s%s" % (spec["seed"], len(op.params), what)).random() < 0.5
        name = str(getattr(op, "gate", type(op).__name__))
        key = name.split("(")[0]
        if key not in table:
            table[key] = random.Random("%s%s" % (spec["seed"], key)).random() < 0.5
        return table[key]
    return pred


class Stub(stubs.StubSimulator):
    def is_natively_supported(self, operation):
        if self.native is None:
            return super(stubs.StubSimulator, self).is_natively_supported(operation)
        return self.native(operation)

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        who = self.sim.current.name
        self.started.append((who, list(circuit.operations), circuit.n_qubits, np.array(initial_state, dtype=complex, copy=True)))
        self.sim.event("engine", len(circuit.operations))
        self.inj.hit("engine")
        state = initial_state
        for op in circuit.operations:
            state = op.apply(state)
        self.sim.event("engine-done")
        return state


class Symbolic(SymbolicSimulator):
    native = staticmethod(lambda op: True)

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        self.started.append((self.sim.current.name, list(circuit.operations), circuit.n_qubits, np.array(initial_state, dtype=complex, copy=True)))
        self.sim.event("engine")
        self.inj.hit("engine")
        return super()._get_wavefunction_from_native_circuit(circuit, initial_state)


def execute(sim, sc):
    cinj = stubs.Injections(sim, sc["cfail"])
    built = [build(cinj, s) for s in sc["circuits"]]
    lists = [list(c.operations) for c, _ in built]
    world = []
    for spec in sc["sims"]:
        if spec["kind"] == "stub":
            b = Stub(sim, spec["seed"], spec["fail"])
            b.native = native_of(sim, spec)
        else:
            b = Symbolic(seed=spec["seed"])
            b.sim, b.inj = sim, stubs.Injections(sim, spec["fail"])
            sim.probe("symbolic")
        b.started = []
        world.append(dict(b=b, runs=0, active=0, users=set()))

    def client(c, ops):
        me = "c%d" % c

        def run():
            for op in ops:
                w = world[op["s"] % len(world)]
                w["users"].add(me)
                if len(w["users"]) > 1:
                    sim.probe("shared-simulator")
                for n in range(1 + op["retry"]):
                    if n:
                        sim.probe("retry")
                    if attempt(w, op):
                        break

        def attempt(w, op):
            b = w["b"]
            i = op["c"] % len(built)
            circuit, ref = built[i]
            width = circuit.n_qubits
            sim.stats[op["op"]] += 1
            init = None
            start = np.zeros(2 ** width, dtype=complex)
            start[0] = 1
            if op["op"] == "wf" and op["init"]:
                r = np.random.RandomState(op["iseed"])
                a = r.normal(size=2 ** width) + (0 if op["init"] == "real" else 1j) * r.normal(size=2 ** width)
                start = a / np.linalg.norm(a)
                if op["init"] == "nearly":  # all but real
                    start = (start.real + 1e-9j * start.imag) / np.linalg.norm(start.real)
                elif op["init"] == "tiny":  # one amplitude and next to nothing
                    start = start * 1e-9
                    start[op["iseed"] % 2 ** width] = np.exp(1e-9j * op["iseed"])
                elif op["init"] == "single":
                    start = start.astype(np.complex64)
                init = start.copy() if op["init"] not in ("list", "tuple") else list(start) if op["init"] == "list" else tuple(start)
                sim.probe("initial-state")
            natives = [b.is_natively_supported(o) for o in circuit.operations]
            groups = []  # maximal runs of native operations: (first, last+1)
            for j, nat in enumerate(natives):
                if nat:
                    if j and natives[j - 1]:
                        groups[-1][1] = j + 1
                    else:
                        groups.append([j, j + 1])
            sim.probe("all-native" if all(natives) else "mixed" if any(natives) else "none-native")
            if len(groups) > 1:
                sim.probe("several-runs")
            if any(y - x == 1 for x, y in groups):
                sim.probe("one-op-run")
            mark = len(b.started)
            terms = make_terms(op, width)
            w["active"] += 1
            if w["active"] > 1:
                sim.probe("concurrent")
            err = got = None
            try:
                if op["op"] == "wf":
                    got = b.get_wavefunction(circuit) if init is None else b.get_wavefunction(circuit, init)
                elif op["op"] == "exp":
                    o = (IsingOperator if op["ising"] else QubitOperator)()
                    o = sum(((IsingOperator if op["ising"] else QubitOperator)(t, k) for t, k in terms), o)
                    terms = [(t, k) for t, k in o.terms.items()]
                    got = b.get_exact_expectation_values(circuit, o)
                    sim.check(list(o.terms.items()) == terms, "operator-changed", "the operator passed was changed", "operator-changed")
                elif op["op"] == "dist":
                    got = b.get_measurement_outcome_distribution(circuit)
                else:
                    got = b.get_bitstring_distribution(circuit, None)
            except InjectedError as e:
                err = e
                sim.probe("operation-failed" if "operation" in str(e) else "engine-failed")
            finally:
                w["active"] -= 1
            mine = [x for x in b.started[mark:] if x[0] == me]
            w["runs"] += len(mine)
            # engine runs: once each, in order, with the current state
            sim.check(len(mine) == len(groups) if err is None else len(mine) <= len(groups), "engine-runs", lambda: "%d engine runs for %d native runs of %s" % (len(mine), len(groups), natives), "engine-runs")
            for (x, y), (_, seg, nq, before) in zip(groups, mine):
                sim.check(len(seg) == y - x and all(p is q or p == q for p, q in zip(seg, circuit.operations[x:y])), "engine-segment", lambda: "engine got %s, expected %s" % (seg, circuit.operations[x:y]), "engine-segment")
                sim.check(nq == width, "engine-width", lambda: "engine circuit has %s qubits, the circuit %d" % (nq, width), "engine-width")
                want = apply_ref(ref[:x], width, start)
                sim.check(close(before, want, op), "engine-state", lambda: "engine started from %s, expected %s" % (before, want), "engine-state")
            if not w["active"]:
                sim.check(b.number_of_circuits_run == w["runs"] and b.number_of_jobs_run == w["runs"], "counts", lambda: "%s circuits and %s jobs counted for %d native runs" % (
                    b.number_of_circuits_run, b.number_of_jobs_run, w["runs"]), "counts")
            sim.check(len(circuit.operations) == len(lists[i]) and all(p is q for p, q in zip(circuit.operations, lists[i])), "circuit-changed", "simulating changed the circuit", "circuit-changed")
            if init is not None:
                sim.check(np.array_equal(np.asarray(init), start), "initial-state-changed", "simulating changed the initial state passed", "initial-state-changed")
            if err is not None:
                return False
            final = apply_ref(ref, width, start)
            if op["op"] == "wf":
                sim.check(close(np.asarray(got.amplitudes), final, op), "state-differs", lambda: "%s gives %s, expected %s" % (circuit, got.amplitudes, final), "state")
            elif op["op"] == "exp":
                sim.probe("ising" if op["ising"] else "expectation")
                want = expectations(terms, width, final)
                sim.check(len(got.values) == len(want) and np.allclose(got.values, want, rtol=0, atol=1e-11), "expectation-differs", lambda: "%s of %s: %s, expected %s" % (terms, circuit, got.values, want), "expectation")
            else:
                sim.probe("exact-distribution")
                probs = np.abs(final) ** 2
                want = {tuple(map(int, format(k, "0%db" % width))): p for k, p in enumerate(probs)}
                d = got.distribution_dict
                sim.check(all(abs(d.get(k, 0) - p) < 1e-11 for k, p in want.items()) and set(d) <= set(want), "distribution-differs", lambda: "%s gives %s, expected %s" % (circuit, d, want), "distribution")
            return True
        return run

    def make_terms(op, width):
        r = random.Random(op["opseed"])
        out = []
        for _ in range(r.randrange(1, 4)):
            qs = r.sample(range(width), r.randrange(0, width + 1))
            out.append((tuple((q, "Z" if op["ising"] else r.choice("XYZ")) for q in sorted(qs)), round(r.uniform(-2, 2), 3)))
        return out

    sim.run_tasks([("c%d" % i, client(i, ops)) for i, ops in enumerate(sc["clients"])])
    for w in world:
        b = w["b"]
        sim.check(b.number_of_circuits_run == w["runs"] and b.number_of_jobs_run == w["runs"], "counts", lambda: "at the end %s circuits and %s jobs counted for %d native runs" % (
            b.number_of_circuits_run, b.number_of_jobs_run, w["runs"]), "counts")
