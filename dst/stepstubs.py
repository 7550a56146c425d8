"""Objects named in the specifications that workflow steps are given."""
import hashlib
import random

import numpy as np

from zquantum.core.interfaces.optimizer import Optimizer, construct_history_info, optimization_result
from zquantum.core.measurement import Measurements
from zquantum.core.symbolic_simulator import SymbolicSimulator
import artifacts as A

SIM = [None]


class StepBackend(SymbolicSimulator):
    """A device: outcomes depend only on the circuit, the number of samples and the settings."""

    def __init__(self, n_samples=None, noise_model=None, device_connectivity=None, batched=False, fail_at=None, **kwargs):
        super().__init__()
        self.n_samples = n_samples
        self.settings = repr((A.fp(noise_model) if noise_model is not None else None, A.fp(device_connectivity) if device_connectivity is not None else None))
        if batched:
            self.supports_batching = True
            self.batch_size = 2

    def run_circuit_and_measure(self, circuit, n_samples):
        n = n_samples if n_samples is not None else self.n_samples or 7
        super(SymbolicSimulator, self).run_circuit_and_measure(circuit, n)
        return outcome(circuit, n, self.settings)


    def run_circuitset_and_measure(self, circuits, n_samples):
        if not self.supports_batching:
            return super().run_circuitset_and_measure(circuits, n_samples)
        super().run_circuitset_and_measure(circuits, n_samples)
        ns = list(n_samples) if hasattr(n_samples, "__len__") else [n_samples] * len(circuits)
        return [outcome(c, n if n is not None else self.n_samples or 7, self.settings) for c, n in zip(circuits, ns)]


def outcome(circuit, n, settings):
    sim = SIM[0]
    sim.event("device")
    left = sim.device_fail
    if left is not None:
        if left == 0:
            sim.device_fail = None
            sim.fault("device")
            raise RuntimeError("the device is unavailable [injected]")
        sim.device_fail = left - 1
    h = hashlib.blake2b(repr((A.fp(circuit), n, settings)).encode(), digest_size=8).hexdigest()
    r = random.Random(h)
    return Measurements([tuple(r.randrange(2) for _ in range(max(3, circuit.n_qubits))) for _ in range(n)])


class StepOptimizer(Optimizer):
    """Tries a fixed pattern of points and returns the best."""

    def __init__(self, n=3):
        super().__init__()
        self.n = n

    def _minimize(self, cost_function, initial_params, keep_history=False):
        p0 = np.array(initial_params, dtype=float)
        best = None
        for k in range(self.n):
            p = p0 + 0.1 * k
            v = cost_function(p)
            if best is None or float(v) < best[0]:
                best = (float(v), p)
        return optimization_result(opt_value=best[0], opt_params=best[1], nit=self.n, nfev=self.n, **construct_history_info(cost_function, keep_history))


def make_noise(data):
    return {"noise": data}
