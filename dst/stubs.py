"""Stub backends and functions driven by the simulator, and shared generators."""
import random

import numpy as np

import artifacts as A
from kernel import injected
from zquantum.core import circuits as zc
from zquantum.core.interfaces.backend import QuantumBackend, QuantumSimulator
from zquantum.core.measurement import Measurements


def n_circuit(seed, width=3, depth=6, min_ops=0):
    """A numeric, gate-only circuit (at least one qubit)."""
    r = random.Random(seed)
    ops = []
    for _ in range(r.randrange(min_ops, depth + 1)):
        k = r.randrange(8)
        if k < 3:
            g = getattr(zc, r.choice(A.ONE_Q))
        elif k < 5:
            g = getattr(zc, r.choice(["RX", "RY", "RZ", "PHASE"]))(round(r.uniform(-3, 3), 3))
        elif k == 5:
            g = getattr(zc, r.choice(A.TWO_Q))
        elif k == 6:
            g = getattr(zc, r.choice(["CPHASE", "XX"]))(round(r.uniform(-3, 3), 3))
        else:
            g = r.choice([zc.X.controlled(1), zc.T.dagger, zc.RX(0.3).dagger])
        if g.num_qubits > width:
            continue
        ops.append(g(*r.sample(range(width), g.num_qubits)))
    while len(ops) < min_ops:
        ops.append(zc.X(r.randrange(width)))
    return zc.Circuit(ops, n_qubits=width)


class Injections:
    """Which calls (by global index of a stub) fail."""

    def __init__(self, sim, fail):
        self.sim = sim
        self.fail = set(fail or ())
        self.calls = 0

    def hit(self, what):
        i = self.calls
        self.calls += 1
        if i in self.fail:
            self.sim.fault("fail@" + what)
            raise injected(self.sim, "%s call %d fails" % (what, i))
        return i


def draw_bits(seed, i, width, n):
    r = random.Random(seed * 1000003 + i)
    pool = [tuple(r.randrange(2) for _ in range(width)) for _ in range(r.choice([1, 2, 5]))]
    return [r.choice(pool) for _ in range(n)]


class StubBackend(QuantumBackend):
    """Base-class accounting is real; execution is scripted."""

    def __init__(self, sim, seed=0, fail=(), skew=0):
        super().__init__()
        self.sim = sim
        self.seed = seed
        self.inj = Injections(sim, fail)
        self.results = []
        self.skew = skew    # returns n_samples + skew shots now and then

    def run_circuit_and_measure(self, circuit, n_samples):
        super().run_circuit_and_measure(circuit, n_samples)
        return self._execute(circuit, n_samples)

    def _execute(self, circuit, n_samples):
        self.sim.event("backend", "n=%s" % n_samples)
        i = self.inj.hit("backend")
        n = n_samples
        if self.skew and i % 3 == 1:
            n = max(1, n + self.skew)
        m = Measurements(draw_bits(self.seed, i, circuit.n_qubits, n))
        self.sim.event("backend-done")
        self.results.append(list(m.bitstrings))
        return m


class StubBatchBackend(StubBackend):
    supports_batching = True
    batch_size = 3

    def __init__(self, sim, seed=0, fail=(), skew=0, batch_size=None):
        if batch_size is not None:
            self.batch_size = batch_size
        super().__init__(sim, seed, fail, skew)

    def run_circuitset_and_measure(self, circuits, n_samples):
        super().run_circuitset_and_measure(circuits, n_samples)
        circuits, n_samples = list(circuits), list(n_samples)
        out = []
        for i in range(0, len(circuits), self.batch_size):
            self.sim.event("batch")
            for c, n in zip(circuits[i:i + self.batch_size], n_samples[i:i + self.batch_size]):
                out.append(self._execute(c, n))
        return out


class StubSimulator(QuantumSimulator):
    """A simulator whose native engine is scripted: exact for supported gates, may fail or yield."""

    def __init__(self, sim, seed=0, fail=(), native=None):
        super().__init__()
        self.sim = sim
        self.seed = seed
        self.inj = Injections(sim, fail)
        self.native = native or (lambda op: True)
        self.segments = []

    def is_natively_supported(self, operation):
        return self.native(operation)

    def run_circuit_and_measure(self, circuit, n_samples):
        super().run_circuit_and_measure(circuit, n_samples)
        self.sim.event("backend", "n=%s" % n_samples)
        i = self.inj.hit("backend")
        return Measurements(draw_bits(self.seed, i, circuit.n_qubits, n_samples))

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        self.sim.event("engine", len(circuit.operations))
        before = np.array(initial_state, dtype=complex, copy=True)
        self.inj.hit("engine")
        state = initial_state
        for op in circuit.operations:
            state = op.apply(state)
        self.sim.event("engine-done")
        self.segments.append((list(circuit.operations), before))
        return state
