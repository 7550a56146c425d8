"""Shared objects of C15 and the operations clients perform on them.

A pool object is a pure function of (kind, index, run seed) and is built on first use; every
operation is a pure function of the pool objects it picks and of its own arguments, and calls
back into the simulator (`ctx.out`) wherever control leaves the library.
"""
import copy
import hashlib
import random

import networkx as nx
import numpy as np
import scipy.sparse
import sympy
from overrides import overrides

import artifacts as A
import stubs
import zquantum.core.graph as G
import zquantum.core.hamiltonian as ham
import zquantum.core.measurement as zm
import zquantum.core.utils as zu
from zquantum.core import circuits as zc
from zquantum.core import cost_function as cf
from zquantum.core import distribution as zd
from zquantum.core import estimation as est
from zquantum.core import evolution as evo
from zquantum.core import gradients
from zquantum.core import openfermion as of
from zquantum.core import wavefunction as zw
from zquantum.core.circuits import layouts
from zquantum.core.decompositions import U3GateToRotation, decompose_zquantum_circuit
from zquantum.core.interfaces.ansatz import Ansatz
from zquantum.core.interfaces.ansatz_utils import combine_ansatz_params
from zquantum.core.interfaces.backend import QuantumSimulator
from zquantum.core.interfaces.estimation import EstimationTask
from zquantum.core.interfaces.mock_objects import MockAnsatz
from zquantum.core.openfermion import FermionOperator, InteractionOperator, InteractionRDM, IsingOperator, PolynomialTensor, QubitOperator
from zquantum.core.openfermion.ops.representations.interaction_operator import get_active_space_integrals, get_tensors_from_integrals
from zquantum.core.symbolic_simulator import SymbolicSimulator

S3 = sympy.symbols("s_0 s_1 s_2")


# ------------------------------------------------------------------ fingerprints
def fp(o, seen=None):
    """Exact deep image of an object as observable through its public content."""
    if o is None or isinstance(o, (str, bytes, bool)):
        return o
    if isinstance(o, zu.ValueEstimate):
        return ("ve", float(o).hex(), fp(o.precision))
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (int, np.integer)):
        return int(o)
    if isinstance(o, (float, np.floating)):
        return float(o).hex()
    if isinstance(o, (complex, np.complexfloating)):
        return ("c", complex(o).real.hex(), complex(o).imag.hex())
    if isinstance(o, sympy.MatrixBase):
        return ("M", o.shape, [fp(x) for x in o])
    if isinstance(o, sympy.Basic):
        return ("s", A.sx(o))
    if isinstance(o, np.ndarray):
        return ("a", str(o.dtype), o.shape, [fp(x) for x in o.ravel().tolist()])
    if scipy.sparse.issparse(o):
        return ("sp", fp(o.toarray()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__ if not hasattr(o, "_asdict") else "nt", [fp(x) for x in o])
    if isinstance(o, (set, frozenset)):
        return ("set", sorted(repr(fp(x)) for x in o))
    if isinstance(o, dict):
        return ("d", [(fp(k), fp(v)) for k, v in o.items()])
    if isinstance(o, zc.Circuit):
        return ("circuit", fp(o.n_qubits), [fp(x) for x in o.operations])
    if isinstance(o, zc.GateOperation):
        return ("op", A.gate_fp(o.gate)[0], repr(A.gate_fp(o.gate)), [int(q) for q in o.qubit_indices])
    if isinstance(o, zc.MultiPhaseOperation):
        return ("mp", fp(list(o.params)))
    if isinstance(o, (zc.MatrixFactoryGate, zc.ControlledGate, zc.Dagger)):
        return ("g", repr(A.gate_fp(o)))
    if isinstance(o, (QubitOperator, IsingOperator, FermionOperator)):
        return (type(o).__name__, [(k, fp(v)) for k, v in o.terms.items()])
    if isinstance(o, PolynomialTensor):
        return (type(o).__name__, [(k, fp(v)) for k, v in o.n_body_tensors.items()])
    if isinstance(o, nx.Graph):
        return ("graph", o.is_directed(), [(fp(n), fp(dict(d))) for n, d in o.nodes(data=True)], [(fp(a), fp(b), fp(dict(d))) for a, b, d in o.edges(data=True)], fp(dict(o.graph)))
    if isinstance(o, zd.MeasurementOutcomeDistribution):
        return ("dist", fp(o.distribution_dict))
    if isinstance(o, zm.Measurements):
        return ("meas", [tuple(int(x) for x in b) for b in o.bitstrings])
    if isinstance(o, zm.ExpectationValues):
        return ("ev", fp(o.values), fp(o.correlations), fp(o.estimator_covariances))
    if isinstance(o, zm.Parities):
        return ("par", fp(o.values), fp(o.correlations))
    if isinstance(o, zw.Wavefunction):
        return ("wf", fp(o.amplitudes))
    if isinstance(o, EstimationTask):
        return ("task", fp(o.operator), fp(o.circuit), fp(o.number_of_shots))
    if isinstance(o, layouts.CircuitLayers):
        return ("layers", fp(o.layers))
    if isinstance(o, layouts.CircuitConnectivity):
        return ("conn", fp(o.connectivity))
    if isinstance(o, Ansatz):
        return ("ansatz", fp(o.number_of_layers), fp(o.parametrized_circuit) if o.supports_parametrized_circuits and not getattr(o, "ctx", None) else None)
    if isinstance(o, zc.CustomGateDefinition):
        return ("def", o.gate_name, fp(o.matrix), fp(list(o.params_ordering)))
    if callable(o) or isinstance(o, (QuantumSimulator,)) or type(o).__module__.startswith(("share15", "zquantum")):
        return ("opaque", type(o).__name__)
    raise TypeError("no fingerprint for %r" % type(o))


def short(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()


# ------------------------------------------------------------------ seam objects
class Backend(QuantumSimulator):
    """Deterministic per circuit: what it returns depends only on the circuit and the number of samples."""

    def __init__(self, world, batching=False):
        super().__init__()
        self.world = world
        self.supports_batching = batching
        self.batch_size = 2 if batching else None
        self.executed = 0

    def run_circuit_and_measure(self, circuit, n_samples):
        super().run_circuit_and_measure(circuit, n_samples if n_samples is not None else 12)
        return self.measure(circuit, n_samples)

    def measure(self, circuit, n_samples):
        n = 12 if n_samples is None else n_samples
        self.world.out("backend")
        seed = int(short((fp(circuit), n)), 16)
        r = random.Random(seed)
        m = zm.Measurements([tuple(r.randrange(2) for _ in range(max(circuit.n_qubits, 3))) for _ in range(n)])
        self.world.out("backend-done")
        self.executed += 1
        return m

    def run_circuitset_and_measure(self, circuits, n_samples):
        if not self.supports_batching:
            return super().run_circuitset_and_measure(circuits, n_samples)
        super().run_circuitset_and_measure(circuits, n_samples)
        ns = [n_samples] * len(circuits) if isinstance(n_samples, int) or n_samples is None else list(n_samples)
        return [self.measure(c, n) for c, n in zip(circuits, ns)]

    def is_natively_supported(self, operation):
        return super().is_natively_supported(operation) and not (isinstance(operation, zc.GateOperation) and operation.gate.name == "T")

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        self.world.out("engine")
        state = np.array(initial_state, dtype=complex)
        for op in circuit.operations:
            state = op.apply(state)
        self.world.out("engine-done")
        return state


class YieldingAnsatz(Ansatz):
    supports_parametrized_circuits = True

    def __init__(self, world, layers):
        super().__init__(layers)
        self.ctx = world

    @property
    def number_of_qubits(self):
        return 3

    @overrides
    def _generate_circuit(self, params=None):
        c = zc.Circuit()
        for i in range(self.number_of_layers):
            self.ctx.sim.event("ansatz")  # not counted: a cached circuit is not generated again
            p = S3[i % 3] if params is None else params[i]
            c += zc.RY(p)(i % 3)
            c += zc.CNOT(i % 3, (i + 1) % 3)
        return c


# ------------------------------------------------------------------ pool
def circ_sym(r):
    ops = []
    for _ in range(r.randrange(1, 7)):
        k = r.randrange(6)
        p = r.choice([S3[0], S3[1], S3[2], S3[0] + S3[1], 2 * S3[2], 0.4])
        if k < 3:
            ops.append(r.choice([zc.RX, zc.RY, zc.RZ, zc.PHASE])(p)(r.randrange(3)))
        elif k == 3:
            ops.append(zc.CNOT(*r.sample(range(3), 2)))
        elif k == 4:
            ops.append(zc.U3(p, 0.1, S3[0])(r.randrange(3)))
        else:
            ops.append(r.choice([zc.RX(p).dagger(1), zc.RZ(p).controlled(1)(0, 2), zc.H(0)]))
    ops += [zc.RX(s)(i) for i, s in enumerate(S3)]
    return zc.Circuit(ops, n_qubits=3)


def odd(r, op):
    """Now and then coefficients that arithmetic leaves behind: zeros, rounding errors, other number types."""
    if op.terms and r.random() < 0.2:
        k = r.choice(sorted(op.terms))
        op.terms[k] = r.choice([0.0, 0, 1e-13, 1, np.float64(0.5), 1e-9])
    return op


def qop(r, n=3, terms=None, real=True, const=True):
    op = QubitOperator()
    for _ in range(terms or r.randrange(1, 6)):
        qs = sorted(r.sample(range(n), r.randrange(0 if const else 1, n + 1)))
        op += QubitOperator(tuple((q, r.choice("XYZ")) for q in qs), round(r.uniform(-2, 2), 3) if real else complex(round(r.uniform(-2, 2), 3), round(r.uniform(-1, 1), 3)))
    return odd(r, op)


def fop(r, n=4):
    op = FermionOperator()
    for _ in range(r.randrange(1, 5)):
        k = r.randrange(4)
        t = [(r.randrange(n), 1), (r.randrange(n), 0)] if k < 2 else [(a, 1) for a in r.sample(range(n), 2)] + [(a, 0) for a in r.sample(range(n), 2)] if k == 2 else []
        op += FermionOperator(tuple(t), round(r.uniform(-2, 2), 3))
    return odd(r, op)


def herm_iop(r, m=4):
    f = fop(r, m)
    return of.get_interaction_operator(f + of.hermitian_conjugated(f), m)


def state(r, n=3):
    v = np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(2 ** n)])
    return v / np.linalg.norm(v)


def dist_dict(r, tuples=True, normal=True):
    keys = r.sample([(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)], r.randrange(2, 8))
    v = [r.random() + 0.01 for _ in keys]
    t = sum(v) if normal else 1.0
    return {(k if tuples else "".join(map(str, k))): x / t for k, x in zip(keys, v)}


BUILD = {
    "circ": lambda r, w: stubs.n_circuit(r.randrange(10 ** 6), 3, 6, 1),
    "csym": lambda r, w: circ_sym(r),
    "cgen": lambda r, w: A.g_circuit(r, 2),
    "circuits": lambda r, w: [stubs.n_circuit(r.randrange(10 ** 6), 3, 5, 1) for _ in range(r.randrange(1, 5))],
    "shots": lambda r, w: [r.randrange(1, 20) for _ in range(8)],
    "symmap": lambda r, w: {s: round(r.uniform(-3, 3), 3) for s in r.sample(S3, r.randrange(1, 4))},
    "fullmap": lambda r, w: {s: round(r.uniform(-3, 3), 3) for s in S3},
    "params": lambda r, w: np.array([round(r.uniform(-3, 3), 3) for _ in range(3)]),
    "iparams": lambda r, w: np.array([r.randrange(-3, 4) for _ in range(3)]),
    "params1": lambda r, w: np.array([round(r.uniform(-3, 3), 3)]),
    "params2": lambda r, w: np.array([round(r.uniform(-3, 3), 3) for _ in range(2)]),
    "qop": lambda r, w: qop(r, real=r.random() < 0.8),
    "qreal": lambda r, w: qop(r),
    "iop": lambda r, w: ising(r),
    "fop": lambda r, w: fop(r),
    "intop": lambda r, w: herm_iop(r),
    "rdm": lambda r, w: of.hf_rdm(1, 1, 2) if r.random() < 0.5 else A_rdm(r),
    "poly": lambda r, w: poly(r),
    "tasks": lambda r, w: [EstimationTask(qop(r), stubs.n_circuit(r.randrange(10 ** 6), 3, 5, 1), r.choice([None, 5, 9])) for _ in range(r.randrange(1, 4))],
    "itasks": lambda r, w: [EstimationTask(r.choice([ising(r), IsingOperator((), 1.5), IsingOperator("Z0", -2.0)]), stubs.n_circuit(r.randrange(10 ** 6), 3, 5, 1), r.choice([0, 5, 9])) for _ in range(r.randrange(1, 5))],
    "symtasks": lambda r, w: [EstimationTask(qop(r), circ_sym(r), None) for _ in range(r.randrange(1, 4))],
    "group": lambda r, w: [qop(r, terms=2) for _ in range(r.randrange(1, 4))],
    "state": lambda r, w: state(r),
    "wf": lambda r, w: zw.Wavefunction(state(r)),
    "wfsym": lambda r, w: zw.Wavefunction(sympy.Matrix([S3[0], 0, 0.5, S3[1], 0, 0, S3[2], 0])),
    "wfmap": lambda r, w: {S3[0]: 0.5, S3[1]: 0.5, S3[2]: 0.5},
    "ddict": lambda r, w: dist_dict(r, True, r.random() < 0.5),
    "dstr": lambda r, w: dist_dict(r, False, r.random() < 0.5),
    "dist": lambda r, w: zd.MeasurementOutcomeDistribution(dist_dict(r)),
    "probs": lambda r, w: np.abs(state(r)) ** 2,
    "dpar": lambda r, w: {"epsilon": 1e-6, "sigma": r.choice([0.7, np.array([0.5, 2.0])])},
    "graph": lambda r, w: A.g_graph(r, 3),
    "gspec": lambda r, w: r.choice([{"type_graph": "complete", "num_nodes": 4}, {"type_graph": "erdos_renyi", "num_nodes": 5, "probability": 0.5, "seed": 3, "random_weights": False},
                                    {"type_graph": "ladder", "num_nodes": 4, "length_of_ladder": 3}, {"type_graph": "regular", "num_nodes": 6, "degree": 3, "seed": 1}]),
    "bits": lambda r, w: [tuple(r.randrange(2) for _ in range(3)) for _ in range(r.randrange(2, 20))],
    "meas": lambda r, w: zm.Measurements([tuple(r.randrange(2) for _ in range(3)) for _ in range(r.randrange(2, 20))]),
    "freq": lambda r, w: {"".join(map(str, k)): int(1 + 20 * v) for k, v in dist_dict(r).items()},
    "ev": lambda r, w: zm.ExpectationValues(np.array([round(r.uniform(-1, 1), 3) for _ in range(3)]), [np.eye(3)], [np.eye(3) * 0.1]),
    "evc": lambda r, w: zm.ExpectationValues(np.array([complex(round(r.uniform(-1, 1), 3), r.choice([0, 1e-9])) for _ in range(2)])),
    "evs": lambda r, w: [BUILD["ev"](r, w) for _ in range(r.randrange(1, 4))],
    "evdict": lambda r, w: BUILD["ev"](r, w).to_dict(),
    "par": lambda r, w: zm.Parities(np.array([[3, 1], [2, 2]]), [np.array([[[4, 0], [1, 3]], [[1, 3], [4, 0]]])]),
    "matrix": lambda r, w: [[complex(r.randrange(-2, 3), r.randrange(-2, 3)) for _ in range(4)] for _ in range(4)],
    "arr": lambda r, w: A.g_array(r, 2),
    "adict": lambda r, w: zu.convert_array_to_dict(A.g_array(r, 2)),
    "cdict": lambda r, w: zc.to_dict(A.g_circuit(r, 2)),
    "csdict": lambda r, w: zc.to_dict([stubs.n_circuit(3, 3, 4, 1), stubs.n_circuit(4, 3, 4, 1)]),
    "odict": lambda r, w: of.convert_qubitop_to_dict(qop(r)),
    "idict": lambda r, w: of.convert_interaction_op_to_dict(herm_iop(r, 2)),
    "spec": lambda r, w: r.choice([{"module_name": "zquantum.core.interfaces.mock_objects", "function_name": "MockAnsatz", "number_of_layers": 2, "problem_size": 2},
                                   {"module_name": "zquantum.core.graph", "function_name": "generate_ladder_graph", "length_of_ladder": 3}]),
    "singles": lambda r, w: np.array([[0, 0.1], [0.3, 0]]),
    "doubles": lambda r, w: np.arange(16).reshape((2, 2, 2, 2)) * 0.1,
    "slist": lambda r, w: [[[0, 1], 0.2], [[1, 2], 0.3]],
    "dlist": lambda r, w: [[[0, 1, 2, 3], 0.2]],
    "one": lambda r, w: np.array([[round(r.uniform(-1, 1), 2) for _ in range(2)] for _ in range(2)]),
    "two": lambda r, w: np.array([round(r.uniform(-1, 1), 2) for _ in range(16)]).reshape((2,) * 4),
    "rot": lambda r, w: np.array([[0, 1, 0, 0], [1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, -1.0]]),
    "order": lambda r, w: r.sample(range(4), 4),
    "floats": lambda r, w: [round(r.uniform(0.1, 3), 3) for _ in range(r.randrange(1, 5))],
    "layers": lambda r, w: layouts.build_circuit_layers_and_connectivity(4)[1],
    "rules": lambda r, w: [U3GateToRotation()],
    "layerpar": lambda r, w: np.array([[round(r.uniform(-3, 3), 3)] for _ in range(3)]),
    "idx": lambda r, w: [0, 2],
    # objects that call out
    "backend": lambda r, w: Backend(w, r.random() < 0.4),
    "symsim": lambda r, w: SymbolicSimulator(),
    "ansatz": lambda r, w: YieldingAnsatz(w, 3) if r.random() < 0.6 else MockAnsatz(3, 3),
    "pre": lambda r, w: r.choice([[], [yielding(w, est.group_individually)], [yielding(w, est.group_greedily), yielding(w, est.perform_context_selection)],
                                  [yielding(w, lambda t: est.allocate_shots_uniformly(t, 7))], [yielding(w, est.group_greedily), yielding(w, lambda t: est.allocate_shots_proportionally(t, 50))]]),
    "cost": lambda r, w: make_cost(r, w),
    "func": lambda r, w: user_function(w),
}


def ising(r):
    op = IsingOperator()
    for _ in range(r.randrange(1, 5)):
        op += IsingOperator(tuple((q, "Z") for q in sorted(r.sample(range(3), r.randrange(0, 3)))), round(r.uniform(-2, 2), 3))
    return odd(r, op)


def A_rdm(r):
    v = state(r, 2)
    one = np.array([[round(r.uniform(-1, 1), 3) for _ in range(4)] for _ in range(4)])
    one = one + one.T
    two = np.array([round(r.uniform(-1, 1), 3) for _ in range(256)]).reshape((4,) * 4)
    return InteractionRDM(one, two)


def poly(r):
    t = {}
    if r.random() < 0.7:
        t[()] = round(r.uniform(-1, 1), 3)
    t[(1, 0)] = np.array([[round(r.uniform(-1, 1), 3) for _ in range(4)] for _ in range(4)])
    if r.random() < 0.6:
        t[(1, 1, 0, 0)] = np.array([round(r.uniform(-1, 1), 3) for _ in range(256)]).reshape((4,) * 4)
    if r.random() < 0.4:
        t[(1, 1)] = np.array([[round(r.uniform(-1, 1), 3) for _ in range(4)] for _ in range(4)])
    return PolynomialTensor(t)


def yielding(world, f):
    def g(*a, **k):
        world.out("preprocessor")
        return f(*a, **k)
    return g


def user_function(world):
    def f(p):
        world.out("function")
        v = float(np.sum(np.asarray(p) ** 2))
        world.out("function-done")
        return v
    return f


def yielding_estimator(world, f):
    def estimate(backend, tasks):
        world.out("estimator")
        return f(backend, tasks)
    return estimate


def make_cost(r, w):
    """A cost function; everything it refers to is drawn once and may be shared."""
    target = qop(r) if r.random() < 0.5 else ising(r)
    backend = Backend(w, r.random() < 0.4)
    pre = []
    exact = r.random() < 0.5
    if isinstance(target, QubitOperator):
        if exact:
            pre = r.choice([[], [est.group_individually], [est.group_greedily]])
        else:
            pre = [est.group_greedily, est.perform_context_selection]
    if not exact and r.random() < 0.6:
        pre = pre + [lambda t: est.allocate_shots_uniformly(t, 7)]
    pre = [yielding(w, p) for p in pre]
    method = yielding_estimator(w, est.calculate_exact_expectation_values if exact else est.estimate_expectation_values_by_averaging)
    fixed = np.array([0.3]) if r.random() < 0.4 else None
    k = r.randrange(4)
    if k == 0:
        factory = cf.expectation_value_estimation_tasks_factory(target, circ_sym(r), pre)
    elif k == 1:
        factory = cf.substitution_based_estimation_tasks_factory(target, MockAnsatz(3, 3), pre)
    elif k == 2:
        factory = cf.dynamic_circuit_estimation_tasks_factory(target, MockAnsatz(3, 3), pre)
    else:
        return cf.AnsatzBasedCostFunction(target, MockAnsatz(3, 3), backend, method, pre, fixed, 0.1 if r.random() < 0.4 else None, 7 if r.random() < 0.9 else 0), (2 if fixed is not None else 3)
    if r.random() < 0.25:
        return cf.get_ground_state_cost_function(target, circ_sym(r), backend, method, pre, fixed, 0.1 if r.random() < 0.4 else None, 5), (2 if fixed is not None else 3)
    pp = r.choice([list, tuple, iter])([cf.fix_parameters(fixed)]) if fixed is not None else None
    return cf.create_cost_function(backend, factory, method, pp), (2 if fixed is not None else 3)


# ------------------------------------------------------------------ operations
OPS = {}


def op(*kinds, **kw):
    def deco(f):
        OPS[f.__name__.strip("_")] = (f, kinds, kw)
        return f
    return deco


def simple(name, f, *kinds, **kw):
    """A plain call on picked objects."""
    OPS[name] = ((lambda w, *xs: f(*xs)), kinds, kw)


@op("circ", "circ")
def circ_add(w, a, b):
    return [a + b, a + zc.X(4), b + a]


@op("csym", "symmap")
def circ_bind(w, c, m):
    return [c.bind(m), c.free_symbols, c.n_qubits]


@op("circ", "state")
def apply_ops(w, c, v):
    s = v
    for o in c.operations:
        s = o.apply(s)
    return s


@op("state", "params")
def multiphase(w, v, p):
    ph = tuple(list(p) + list(p) + [0.1, 0.2])
    o = zc.MultiPhaseOperation(ph)
    return [o.apply(v), o.params]


@op("circ")
def unitary(w, c):
    return c.to_unitary()


@op("csym", "symmap")
def gates_bind(w, c, m):
    out = []
    for o in c.operations:
        out += [o.bind(m), o.gate.dagger, o.gate.controlled(1), list(o.free_symbols), o.replace_params(tuple(0.1 for _ in o.params)) if o.params else None]
    return out


@op("cgen", "cgen")
def circ_misc(w, a, b):
    return [a == b, repr(a), a.collect_custom_gate_definitions(), [(x, c) for x, c in zc.split_circuit(a, lambda o: len(o.qubit_indices) > 1)], b.free_symbols]


@op("circ", "params")
def ancilla(w, c, p):
    return [zc.add_ancilla_register(c, 2), zc.apply_gate_to_qubits(c, [0, 1, 2], zc.RX, p.reshape(-1, 1)), zc.create_layer_of_gates(3, zc.RY, p.reshape(-1, 1)), zc.create_layer_of_gates(2, zc.H)]


@op("cgen", "rules")
def decompose(w, c, rules):
    return decompose_zquantum_circuit(c, rules)


simple("circ_to_dict", lambda c: zc.to_dict(c), "cgen")
simple("circ_from_dict", lambda d: zc.circuit_from_dict(d), "cdict")
simple("circuits_from_dict", lambda d: zc.circuitset_from_dict(d), "csdict")
simple("layers_dict", lambda l: [l.to_dict(), layouts.CircuitLayers.from_dict(l.to_dict())], "layers")


# ---- backends
@op("backend", "circ", "shots")
def run_one(w, b, c, n):
    return b.run_circuit_and_measure(c, n[0])


@op("backend", "circuits", "shots")
def run_set(w, b, cs, n):
    return b.run_circuitset_and_measure(cs, n[:len(cs)])


@op("backend", "circ", "state")
def wavefunction_from(w, b, c, v):
    return [b.get_wavefunction(c, v), b.get_wavefunction(c)]


@op("backend", "circ", "qop")
def exact_values(w, b, c, o):
    return b.get_exact_expectation_values(c, o)


@op("backend", "circ")
def outcome_distribution(w, b, c):
    return [b.get_measurement_outcome_distribution(c, None), b.get_bitstring_distribution(c, None), b.get_measurement_outcome_distribution(c, 9)]


@op("symsim", "circ", "state")
def symbolic_sim(w, b, c, v):
    return [b.get_wavefunction(c, v), b.get_exact_expectation_values(c, QubitOperator("Z0") + QubitOperator("X1"))]


@op("symsim")
def symbolic_circuit(w, b):
    c = zc.Circuit([zc.RX(S3[0])(0), zc.CNOT(0, 1)])
    return [b.get_wavefunction(c), b.get_wavefunction(c.bind({S3[0]: 0.3}))]


@op("backend", "qreal")
def iterate_terms(w, b, o):
    """A client walking over the terms of an operator, calling out for each of them."""
    out = []
    for t in o:
        w.out("term")
        out.append(t)
    return out


@op("qreal")
def iterate_pairs(w, o):
    return [(a, b) for a in o for b in o]


@op("poly")
def iterate_tensor(w, t):
    out = []
    for k in t:
        if len(out) < 6:
            w.out("term")
        out.append((k, t[k]))
    return out


# ---- estimation
simple("group_ind", lambda t: est.group_individually(t), "tasks")
simple("group_greedy", lambda t: [est.group_greedily(t), est.group_greedily(t, sort_terms=True)], "tasks")
simple("context", lambda t: est.perform_context_selection(est.group_greedily(t)), "tasks")
simple("context_circ", lambda o: [est.get_context_selection_circuit_for_group(g) for g in ham.group_comeasureable_terms_greedy(o)], "qreal")
simple("alloc_uniform", lambda t: est.allocate_shots_uniformly(t, 11), "tasks")
simple("alloc_prop", lambda t: est.allocate_shots_proportionally(t, 97), "tasks")
simple("bind_tasks", lambda t, m: est.evaluate_estimation_circuits(t, [m for _ in t]), "symtasks", "symmap")
simple("split_tasks", lambda t: est.split_estimation_tasks_to_measure(t), "itasks")


@op("evc", "circ")
def alloc_prior(w, ev, c):
    tasks = [EstimationTask(QubitOperator("Z0", 0.5), c, None), EstimationTask(QubitOperator("X1", 2.0), c, None)]
    return [est.allocate_shots_proportionally(tasks, 40, ev), ham.estimate_nmeas_for_frames([t.operator for t in tasks], ev), ham.compute_group_variances([t.operator for t in tasks], ev)]


@op("backend", "itasks")
def averaging(w, b, t):
    return est.estimate_expectation_values_by_averaging(b, t)


@op("backend", "tasks")
def averaging_grouped(w, b, t):
    return est.estimate_expectation_values_by_averaging(b, est.perform_context_selection(est.group_greedily(t)))


@op("backend", "tasks")
def exact_est(w, b, t):
    return est.calculate_exact_expectation_values(b, t)


# ---- cost functions
@op("cost", "params", "params2")
def cost_value(w, c, p3, p2):
    f, n = c
    return f(p3 if n == 3 else p2)


@op("cost", "params", "params2")
def cost_twice(w, c, p3, p2):
    f, n = c
    p = p3 if n == 3 else p2
    return [f(p), f(p)]


@op("cost", "params", "params2")
def cost_gradient(w, c, p3, p2):
    f, n = c
    return f.gradient(p3 if n == 3 else p2) if hasattr(f, "gradient") else gradients.finite_differences_gradient(f)(p3 if n == 3 else p2)


@op("func", "params")
def fd_gradient(w, f, p):
    return gradients.finite_differences_gradient(f)(p)


@op("func", "iparams")
def fd_gradient_int(w, f, p):
    return gradients.finite_differences_gradient(f, 1e-2)(p)


@op("backend", "qreal", "ansatz", "pre", "params")
def new_cost(w, b, o, a, pre, p):
    fac = cf.substitution_based_estimation_tasks_factory(o, a, pre)
    f = cf.create_cost_function(b, fac, yielding_estimator(w, est.calculate_exact_expectation_values))
    return [f(p), fac(p)]


@op("backend", "qreal", "ansatz", "pre", "params")
def new_cost_dynamic(w, b, o, a, pre, p):
    fac = cf.dynamic_circuit_estimation_tasks_factory(o, a, pre)
    f = cf.create_cost_function(b, fac, yielding_estimator(w, est.calculate_exact_expectation_values))
    return [f(p), fac(p)]


@op("backend", "qreal", "csym", "pre", "params", "params1", "params2")
def new_cost_circuit(w, b, o, c, pre, p, p1, p2):
    f = cf.create_cost_function(b, cf.expectation_value_estimation_tasks_factory(o, c, pre), est.calculate_exact_expectation_values)
    g = cf.get_ground_state_cost_function(o, c, b, est.calculate_exact_expectation_values, pre, p1, 0.2, 3)
    return [f(p), g(p2)]


@op("backend", "qreal", "ansatz", "pre", "params1", "params2")
def new_ansatz_cost(w, b, o, a, pre, p1, p2):
    return cf.AnsatzBasedCostFunction(o, a, b, est.calculate_exact_expectation_values, pre, p1, 0.2, 3)(p2)


@op("ansatz", "params")
def executable(w, a, p):
    return [a.get_executable_circuit(p), a.number_of_params, a.parametrized_circuit]


simple("combine", lambda a, b: [combine_ansatz_params(a, b), cf.fix_parameters(a)(b)], "params1", "params2")
simple("noise", lambda p: cf.add_normal_noise(0.1, 5)(p), "params")
simple("sum_ev", lambda e: cf.sum_expectation_values(e), "ev")

# ---- measurement
simple("concat_ev", lambda e: zm.concatenate_expectation_values(e), "evs")
simple("ev_dict", lambda e: [e.to_dict(), zm.ExpectationValues.from_dict(e.to_dict())], "ev")
simple("ev_from_dict", lambda d: zm.ExpectationValues.from_dict(d), "evdict")
simple("meas_values", lambda m, o: [m.get_expectation_values(o), m.get_expectation_values(o, use_bessel_correction=True)], "meas", "iop")
simple("meas_counts", lambda m: [m.get_counts(), m.get_distribution()], "meas")
simple("parities", lambda b, o: zm.get_parities_from_measurements(b, o), "bits", "iop")
simple("parities_ev", lambda p: [zm.get_expectation_values_from_parities(p), p.to_dict()], "par")
simple("freq", lambda f: zm.get_expectation_value_from_frequencies([0, 2], f), "freq")
simple("from_counts", lambda f: zm.Measurements.from_counts(f), "freq")
simple("represent", lambda d: zm.Measurements.get_measurements_representing_distribution(d, 50), "dist")
simple("sample_wf", lambda w_: zm.sample_from_wavefunction(w_, 9, 4), "wf")

# ---- wavefunctions and distributions
simple("wf_reads", lambda w_: [w_.get_probabilities(), w_.get_outcome_probs(), len(w_), w_.n_qubits, list(w_), str(w_), zw.flip_wavefunction(w_)], "wf")
simple("wf_sym", lambda w_, m: [w_.bind(m), w_.free_symbols, str(w_), w_.get_probabilities().shape], "wfsym", "wfmap")
simple("wf_new", lambda v: [zw.Wavefunction(v), zw.flip_amplitudes(v)], "state")
simple("wf_expect", lambda o, w_: [of.get_expectation_value(o, w_), of.get_expectation_value(o, w_, True)], "qop", "wf")
simple("dist_new", lambda d: zd.MeasurementOutcomeDistribution(d), "ddict")
simple("dist_new_raw", lambda d: zd.MeasurementOutcomeDistribution(d, normalize=False), "ddict")
simple("dist_new_str", lambda d: zd.MeasurementOutcomeDistribution(d), "dstr")
simple("dist_checks", lambda d: [zd.is_measurement_outcome_distribution(d), zd.is_normalized(d), zd.change_tuple_dict_keys_to_comma_separated_integers(d)], "ddict")
simple("dist_probs", lambda p: zd.create_bitstring_distribution_from_probability_distribution(p), "probs")
simple("dist_mmd", lambda a, b, p: zd.evaluate_distribution_distance(a, b, zd.compute_mmd, distance_measure_parameters=p), "dist", "dist", "dpar")
simple("dist_nll", lambda a, b, p: zd.evaluate_distribution_distance(a, b, zd.compute_clipped_negative_log_likelihood, distance_measure_parameters=p), "dist", "dist", "dpar")
simple("dist_jsd", lambda a, b, p: zd.evaluate_distribution_distance(a, b, zd.compute_jensen_shannon_divergence, distance_measure_parameters=p), "dist", "dist", "dpar")

# ---- graphs and utilities
simple("graph_cmp", lambda a, b: [G.compare_graphs(a, b), G.compare_graphs(a, a), G.generate_graph_node_dict(a)], "graph", "graph")
simple("graph_spec", lambda s: G.generate_graph_from_specs(s), "gspec")
simple("create_object", lambda s: zu.create_object(s), "spec")
simple("func_from_specs", lambda s: zu.get_func_from_specs(s), "spec")
simple("load_from_specs", lambda s: zu.load_from_specs(s), "spec")
simple("scale", lambda v: zu.scale_and_discretize(v, 31), "floats")
simple("arr_dict", lambda a: zu.convert_array_to_dict(a), "arr")
simple("dict_arr", lambda d: zu.convert_dict_to_array(d), "adict")
simple("symbols_map", lambda p: zu.create_symbols_map(list(S3), p), "params")

# ---- hamiltonians
simple("h_group", lambda o: [ham.group_comeasureable_terms_greedy(o), ham.group_comeasureable_terms_greedy(o, True), ham.get_decomposition_function("greedy-sorted")(o)], "qop")
simple("h_nmeas", lambda g: [ham.estimate_nmeas_for_frames(g), ham.compute_group_variances(g)], "group")
simple("h_rdm", lambda m, o: ham.get_expectation_values_from_rdms(m, o), "rdm", "qnum")
simple("h_rdms", lambda m, o: ham.get_expectation_values_from_rdms_for_qubitoperator_list(m, [o, o], sort_terms=True), "rdm", "qnum")
simple("h_reorder", lambda o, p: ham.reorder_fermionic_modes(o, p), "intop", "order")
BUILD["qnum"] = lambda r, w: of.jordan_wigner(FermionOperator("%d^ %d" % (0, r.randrange(4)), 0.5) + FermionOperator("1^ 1", 1.5)) + of.jordan_wigner(FermionOperator("%d^ 0" % 1, 0.25))

# ---- operators
simple("q_arith", lambda a, b: [a + b, a - b, a * b, a * 2.0, 3.0 * a, a / 2.0, -a, a ** 2, a == b, b - a], "qop", "qop")
simple("q_accumulate", lambda a, b: [QubitOperator.accumulate([a, b], a), QubitOperator.accumulate([b]), list(a.get_operator_groups(2)), list(b.get_operators())], "qop", "qop")
simple("q_props", lambda a: [a.many_body_order(), a.induced_norm(), str(a), a.isclose(a), of.count_qubits(a), of.is_hermitian(a), of.hermitian_conjugated(a), of.is_identity(a) if a.terms else None, a.constant], "qop")
simple("q_reverse", lambda a: [of.reverse_qubit_order(a, 3), of.change_operator_type(a, QubitOperator), of.get_pauli_strings(a), of.convert_qubitop_to_dict(a)], "qop")
simple("q_sparse", lambda a: of.get_sparse_operator(a, 3), "qop")
simple("q_rjw", lambda a: of.reverse_jordan_wigner(a), "qreal")
simple("q_circuits", lambda a: of.create_circuits_from_qubit_operator(a), "qop")
simple("q_eval", lambda e: of.evaluate_qubit_operator(QubitOperator("Z0") + QubitOperator("X1", 2.0) + QubitOperator("Y2"), e), "ev")
simple("q_from_dict", lambda d: of.convert_dict_to_qubitop(d), "odict")
simple("q_from_matrix", lambda m: of.get_qubitop_from_matrix(m), "matrix")
simple("i_arith", lambda a, b: [a + b, a * b, a - b, of.change_operator_type(a, QubitOperator), a * 2.0], "iop", "iop")
simple("f_arith", lambda a, b: [a + b, a - b, a * b, -a, of.hermitian_conjugated(a), of.commutator(a, b), of.anticommutator(a, b)], "fop", "fop")
simple("f_order", lambda a: [of.normal_ordered(a), of.chemist_ordered(a), of.reorder(a, of.up_then_down, 4), a.is_normal_ordered(), a.is_two_body_number_conserving()], "fop2")
simple("f_double", lambda a, b: of.double_commutator(a, b, a), "fop", "fop")
simple("f_jw", lambda a: [of.jordan_wigner(a), of.bravyi_kitaev(a, 4)], "fop")
simple("f_sparse", lambda a: of.jordan_wigner_sparse(a, 4), "fop")
simple("f_freeze", lambda a, i: of.freeze_orbitals(a, [0], [3]), "fop", "idx")
simple("f_prune", lambda a: of.prune_unused_indices(a), "fop")
simple("f_poly", lambda a: of.get_polynomial_tensor(a, 4), "fop")
simple("f_iop", lambda o: [of.get_fermion_operator(o), of.jordan_wigner(o), of.get_interaction_operator(of.get_fermion_operator(o), 4)], "intop")
BUILD["fop2"] = lambda r, w: FermionOperator("1^ 1", 0.5) + FermionOperator("0^ 1", round(r.uniform(-1, 1), 2)) + FermionOperator("2^ 1^ 0 3", 0.3)
simple("int_arith", lambda a, b: [a + b, a - b, -a, a * 2.0, 0.5 * a, a / 2.0, a == b], "intop", "intop", mutate=True)
simple("int_parts", lambda a: [of.get_diagonal_component(a), of.convert_interaction_op_to_dict(a), a.projected([0, 1]), list(a.unique_iter())[:5]], "intop")
simple("int_remove", lambda a: of.remove_inactive_orbitals(a, 1, 0), "intop")
simple("int_reduced", lambda a: of.make_reduced_hamiltonian(a, 2), "intop")
simple("int_from_dict", lambda d: of.convert_dict_to_interaction_op(d), "idict")
simple("poly_arith", lambda a, b: [a + b, a - b, -a, a * 2.0, a / 4.0, a == b, a % 3], "poly", "poly", mutate=True)
simple("poly_sum", lambda a, b: a + b, "poly", "poly")
simple("poly_diff", lambda a, b: a - b, "poly", "poly")
simple("poly_mul", lambda a, b: a * b, "poly", "poly")
simple("poly_diag", lambda a: of.get_diagonal_component(a), "poly")
simple("poly_proj", lambda a, i: [a.projected_n_body_tensors(i), a.projected_n_body_tensors(1), str(a)], "poly", "idx")
simple("basis", lambda o, m: of.general_basis_change(o.one_body_tensor, m, (1, 0)), "intop", "rot")
simple("rdm_expect", lambda m, o, q: [m.expectation(o), m.get_qubit_expectations(q), m.expectation(q)], "rdm", "intop", "qnum")
simple("integrals", lambda a, b: [get_tensors_from_integrals(a, b), get_active_space_integrals(a, b, [0], [1])], "one", "two")
simple("uccsd", lambda s, d: [of.uccsd_generator(s, d), of.uccsd_convert_amplitude_format(s, d)], "singles", "doubles")
simple("uccsd_list", lambda s, d: [of.uccsd_generator(s, d), of.uccsd_generator(s, d, False)], "slist", "dlist")
simple("uccsd_singlet", lambda p: of.uccsd_singlet_generator(p[:2], 4, 2), "params")
simple("expect_sparse", lambda o, v: of.expectation(of.get_sparse_operator(o, 3), v), "qop", "state")
simple("density", lambda a, b: of.inner_product(a, b), "state", "state")
simple("number_restrict", lambda o: of.jw_number_restrict_operator(of.get_sparse_operator(o, 3), 1, 3), "qop")
simple("evolve", lambda o: [evo.time_evolution(o, 0.4, trotter_order=2), evo.time_evolution(o, S3[0])], "qreal1")
simple("evolve_der", lambda o: evo.time_evolution_derivatives(o, 0.4, trotter_order=2), "qreal1")
BUILD["qreal1"] = lambda r, w: qop(r, terms=2, const=False)


# ---- further parts of the interface
BUILD["sparse"] = lambda r, w: of.get_sparse_operator(qop(r), 3)
BUILD["herm"] = lambda r, w: (lambda m: m + m.conj().T)(np.array([[complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(8)] for _ in range(8)]))
BUILD["phases"] = lambda r, w: zc.MultiPhaseOperation(tuple(r.choice([S3[0], S3[1] * 2, S3[2] + S3[0], round(r.uniform(-3, 3), 3)]) for _ in range(8)))
def custom_gates():
    return [zc.CustomGateDefinition("swap01", sympy.Matrix([[0, 1], [1, 0]]), ()), zc.CustomGateDefinition("turn", sympy.Matrix([[sympy.exp(S3[0] * sympy.I), 0], [0, sympy.exp(S3[1] * sympy.I)]]), (S3[0], S3[1]))]


BUILD["gate"] = lambda r, w: r.choice([zc.RX(S3[0]), zc.U3(S3[0], 0.2, S3[1]), zc.CNOT, zc.T.dagger, zc.CPHASE(S3[2]).controlled(1), zc.XX(0.3).dagger, zc.H.controlled(2),
                                    custom_gates()[0](), custom_gates()[1](S3[0], 0.5), custom_gates()[0]().controlled(1)])


def grown(a, one):
    """Results of arithmetic are objects of their own: work on them in place."""
    b = a + one
    b *= 2.0
    b += one
    b.compress()
    c = a * 1.0
    c -= one
    c.constant = 7.0
    return [b, c, copy.deepcopy(a), copy.copy(a) == a]


def grown_tensor(a):
    b, c = a * 1.0, a + a
    b += a
    b *= 0.5
    c -= a
    c /= 2.0
    d = -a
    d += 2.0
    return [b, c, d]


simple("multi_bind", lambda o, m, p: [o.bind(m), list(o.free_symbols), o.replace_params(tuple(list(p) * 2 + [0.1, 0.2])), str(o), o.params], "phases", "symmap", "params")
simple("gate_views", lambda g, m: [g.bind(m), g.dagger, g.controlled(1), g.params, list(g.free_symbols), g.matrix, g.bind(m).matrix, g.num_qubits, str(g), g.dagger.bind(m) == g.bind(m).dagger], "gate", "symmap")
simple("gate_params", lambda g: g.replace_params(tuple(0.1 * (i + 1) for i in range(len(g.params)))) if g.params else g.matrix, "gate")
simple("q_grown", lambda a: grown(a, QubitOperator("Z0", 0.5)), "qop")
simple("i_grown", lambda a: grown(a, IsingOperator("Z0", 0.5)), "iop")
simple("f_grown", lambda a: grown(a, FermionOperator("1^ 0", 0.5)), "fop")
simple("q_more", lambda a: [1.5 + a, 2 - a, repr(a), a != a, a * 0, QubitOperator.zero(), QubitOperator.identity() * a], "qop")
simple("int_grown", lambda a: grown_tensor(a), "intop", mutate=True)
simple("poly_grown", lambda a: grown_tensor(a), "poly", mutate=True)
simple("poly_more", lambda a: [a != a, repr(a), {k: v for k, v in a.n_body_tensors.items()}.keys() and list(a.n_body_tensors), a.constant], "poly")
simple("int_bk", lambda a: of.bravyi_kitaev(a), "intop")
simple("int_more", lambda a, m: [str(a), a.constant, copy.deepcopy(a)], "intop", "rot")
simple("sparse_ground", lambda a, v: round(float(of.get_ground_state(a, v)[0]), 8), "sparse", "state")
simple("sparse_more", lambda a, b, v: [of.expectation(a, v), of.inner_product(v, v), of.is_hermitian(a), of.hermitian_conjugated(a), a @ b], "sparse", "sparse", "state")
simple("dense_checks", lambda m, r: [of.is_hermitian(m), of.hermitian_conjugated(m), zu.is_identity(r), zu.is_unitary(r), zu.compare_unitary(r, r)], "herm", "rot")
simple("f_number", lambda a: of.get_number_preserving_sparse_operator(a, 4, 2), "fop2")
simple("q_spectrum", lambda a: of.eigenspectrum(a), "qreal")
simple("bits_more", lambda b: [[zm.convert_bitstring_to_int(x), zm.check_parity(x, [0, 2]), zm.check_parity("".join(map(str, x)), (1,))] for x in b] + [zu.convert_tuples_to_bitstrings(b), zu.convert_bitstrings_to_tuples(zu.convert_tuples_to_bitstrings(b))], "bits")
simple("dist_sample", lambda d: dict(zu.sample_from_probability_distribution(d, 20)), "dstrn")
BUILD["dstrn"] = lambda r, w: dist_dict(r, False)
simple("density_matrix", lambda a, b: of.get_density_matrix([a, b], [0.25, 0.75]), "state", "state")
simple("q_rdm", lambda q: of.get_interaction_rdm(q, 4), "qnum")
simple("int_hc", lambda a: of.hermitian_conjugated(a), "intop", mutate=True)
simple("int_mapped", lambda a: [a.with_function_applied_elementwise(lambda t: t * 2), of.is_hermitian(a), of.count_qubits(a)], "intop", mutate=True)
simple("real_hc", lambda a, b: [of.hermitian_conjugated(a), of.hermitian_conjugated(b), of.is_hermitian(a)], "one", "rot")
simple("arr_hc", lambda a: of.hermitian_conjugated(a) if getattr(a, "ndim", 0) else None, "arr")
simple("unitary_views", lambda c, g: [c.to_unitary(), g.matrix, g(*range(g.num_qubits)).lifted_matrix(g.num_qubits + 1)], "csym", "gate")
simple("gate_own", lambda c: [zc.H.matrix, zc.SWAP.matrix] + [o.gate.matrix for o in c.operations], "circ")
GATE_OPS = {"gate_views", "gate_params", "gate_own", "unitary_views"}


def gate_table():
    """The matrices of the built-in gates."""
    return {g.name: str(g.matrix) for g in [zc.X, zc.Y, zc.Z, zc.H, zc.I, zc.S, zc.T, zc.CNOT, zc.CZ, zc.SWAP, zc.ISWAP]}


NAMES = sorted(OPS)


def spoil(x, own, depth=0):
    """A client changing, in place, the result it was given.  Shallow: only containers and arrays the call itself returned."""
    if any(x is p for p in own):
        return
    if isinstance(x, np.ndarray) and x.size and x.flags.writeable and x.dtype.kind in "fci":
        x[...] = 7
    elif isinstance(x, (QubitOperator, FermionOperator, IsingOperator)):
        x.terms[((0, "Z"),)] = 77.0
        for k in list(x.terms):
            x.terms[k] = -3.5
    elif isinstance(x, PolynomialTensor):
        for k, t in list(x.n_body_tensors.items()):
            if isinstance(t, np.ndarray):
                t[...] = 9
            else:
                x.n_body_tensors[k] = 9.0
    elif isinstance(x, zd.MeasurementOutcomeDistribution):
        x.distribution_dict.clear()
    elif isinstance(x, zm.Measurements):
        x.bitstrings.append((1, 1, 1))
    elif isinstance(x, zm.ExpectationValues):
        if isinstance(x.correlations, list):
            x.correlations.append(None)
        if isinstance(x.values, np.ndarray):
            x.values = x.values * 0
    elif isinstance(x, sympy.MutableDenseMatrix) and len(x):
        x[0, 0] = 77
    elif isinstance(x, scipy.sparse.spmatrix):
        x.data[...] = 7
    elif isinstance(x, nx.Graph):
        x.add_node("mine", w=1)
    elif isinstance(x, zw.Wavefunction):
        pass
    elif isinstance(x, dict):
        x["mine"] = 1
    elif isinstance(x, (list, tuple)) and depth < 1:
        for y in x:
            spoil(y, own, depth + 1)
        if isinstance(x, list):
            x.append("mine")
    elif isinstance(x, list):
        x.append("mine")
