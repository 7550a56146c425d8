"""Workflow steps of C17: how to call each of them and what its outputs must be."""
import copy
import importlib
import json

import numpy as np
import sympy

import artifacts as A
import stepstubs
import zquantum.core.graph as zg
from zquantum.core import circuits as zc
from zquantum.core import cost_function as cf
from zquantum.core import estimation as est
from zquantum.core import hamiltonian as ham
from zquantum.core import openfermion as of
from zquantum.core.circuits import layouts
from zquantum.core.interfaces.mock_objects import MockAnsatz
from zquantum.core.measurement import ExpectationValues, Measurements
from zquantum.core.openfermion import FermionOperator, InteractionOperator, InteractionRDM, IsingOperator, QubitOperator
from zquantum.core.openfermion.linalg import jw_get_ground_state_at_particle_number, qubit_operator_sparse
from zquantum.core.trackers import MeasurementTrackingBackend
from zquantum.core.utils import ValueEstimate

STEPS = {}


def step(name):
    def deco(f):
        STEPS[name] = f
        return f
    return deco


def fn(name):
    mod, f = name.split(".")
    return getattr(importlib.import_module("steps." + mod), f)


class Inputs:
    """What one call of a step is given; files are written by the workflow, not by the step."""

    def __init__(self, sim, disk, prefix, artifacts):
        self.sim, self.disk, self.prefix = sim, disk, prefix
        self.files = {}
        self.objects = []
        self.n = 0
        self.artifacts = artifacts  # outputs of earlier steps, by kind: [(path, object)]
        self.chained = 0

    def path(self, kind, obj):
        self.n += 1
        name = "%s-in%d.json" % (self.prefix, self.n)
        A.K[kind].save(obj, self.disk.path(name))
        self.files[name] = self.disk.raw_read(name)
        return name

    def prior(self, r, kind, ok=None):
        """The output of an earlier step of that kind, if the workflow has one."""
        have = [x for x in self.artifacts.get(kind, ()) if ok is None or ok(x[1])]
        if have and r.random() < 0.6:
            name, obj = r.choice(have)
            self.files[name] = self.disk.raw_read(name)
            self.chained += 1
            return name, obj
        return None

    def give(self, r, kind, make, objects=True, ok=None):
        """(argument for the step, the object behind it)."""
        p = self.prior(r, kind, ok)
        if p:
            return p
        obj = make()
        if objects and r.random() < 0.35:
            self.objects.append((obj, keep(obj)))
            return obj, copy.deepcopy(obj)
        return self.path(kind, obj), copy.deepcopy(obj)

    def plain(self, obj):
        self.objects.append((obj, keep(obj)))
        return obj

    def specs(self, r, d):
        if r.random() < 0.5:
            return json.dumps(d)
        return self.plain(d)


def keep(o):
    if isinstance(o, (list, tuple)):
        return [keep(x) for x in o]
    if isinstance(o, dict):
        return {k: keep(v) for k, v in o.items()}
    return A.fp(o)


# ------------------------------------------------------------------ content
def circ(r, n=3, symbols=False):
    ops = []
    names = []
    for _ in range(r.randrange(1, 6)):
        q = r.sample(range(n), 2)
        x = r.randrange(4)
        if x == 0:
            ops.append(zc.H(q[0]))
        elif x == 1:
            ops.append(zc.CNOT(*q))
        elif x == 2 and symbols:
            s = sympy.Symbol("theta_%d" % len(names))
            names.append(s)
            ops.append(zc.RX(s)(q[0]))
        else:
            ops.append(zc.RY(round(r.uniform(-3, 3), 3))(q[0]))
    if symbols and not names:
        ops.append(zc.RZ(sympy.Symbol("theta_0"))(0))
    return zc.Circuit(ops, n_qubits=n)


def zop(r, n=3, const=True):
    o = QubitOperator()
    for _ in range(r.randrange(1, 4)):
        qs = r.sample(range(n), r.randrange(1, n + 1))
        o += QubitOperator(tuple((q, "Z") for q in sorted(qs)), round(r.uniform(-2, 2), 3))
    if const and r.random() < 0.4:
        o += QubitOperator((), 1.5)
    return o


def zop2(r, n):
    """Diagonal operator contained in the one- and two-body density matrices."""
    o = QubitOperator()
    for _ in range(r.randrange(1, 4)):
        qs = r.sample(range(n), r.randrange(1, 3))
        o += QubitOperator(tuple((q, "Z") for q in sorted(qs)), round(r.uniform(-2, 2), 3))
    return o


def qop(r, n=3):
    o = QubitOperator()
    for _ in range(r.randrange(1, 5)):
        qs = r.sample(range(n), r.randrange(1, n + 1))
        o += QubitOperator(tuple((q, r.choice("XYZ")) for q in sorted(qs)), round(r.uniform(-2, 2), 3))
    return o


def iop(r, n=2):
    h = np.array([[r.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
    h = h + h.T
    v = np.zeros((n,) * 4)
    for idx in np.ndindex(*v.shape):
        v[idx] = round(r.uniform(-1, 1), 3)
    v = v + np.transpose(v, (3, 2, 1, 0))
    return InteractionOperator(round(r.uniform(-1, 1), 3), h, v)


def params(r, k):
    return np.array([round(r.uniform(-2, 2), 4) for _ in range(k)])


def ansatz_specs(r):
    layers, size = r.randrange(1, 4), r.randrange(1, 4)
    return {"module_name": "zquantum.core.interfaces.mock_objects", "function_name": "MockAnsatz", "number_of_layers": layers, "problem_size": size}, MockAnsatz(layers, size), layers


class Out:
    """Expected output: artifact kind and object, or a predicate on the loaded object."""

    def __init__(self, kind, expect=None, pred=None, tol=None):
        self.kind, self.expect, self.pred, self.tol = kind, expect, pred, tol


def backend(r, I, n_samples=None, noise=True):
    """Specs of a device with or without tracking; (argument, kwargs, settings, tracked file)."""
    d = {"module_name": "stepstubs", "function_name": "StepBackend"}
    if n_samples is not None:
        d["n_samples"] = n_samples
    if r.random() < 0.3:
        d["batched"] = True
    raw = None
    if r.random() < 0.5:
        d["track_measurements"] = True
        d["raw_data_file_name"] = raw = "raw-data.json"
        if r.random() < 0.5:
            d["record_bitstrings"] = True
    kw, nm, dc = {}, None, None
    if noise and r.random() < 0.4:
        data = {"p": round(r.random(), 3)}
        I.n += 1
        name = "%s-in%d.json" % (I.prefix, I.n)
        A.zutils.save_noise_model(data, "stepstubs", "make_noise", I.disk.path(name))
        I.files[name] = I.disk.raw_read(name)
        kw["noise_model"] = name
        nm = {"noise": data}
    if noise and r.random() < 0.3:
        dc = layouts.CircuitConnectivity([(0, 1), (1, 2)])
        kw["device_connectivity"] = I.path("circuit_connectivity", dc)
    settings = repr((A.fp(nm) if nm is not None else None, A.fp(dc) if dc is not None else None))
    return I.specs(r, d), kw, settings, raw, d


def quiet_outcome(I, c, n, settings):
    """The outcomes the device gives, computed outside the simulation."""
    sim = I.sim
    saved, sim.device_fail = sim.device_fail, None
    try:
        return stepstubs.outcome(c, n, settings)
    finally:
        sim.device_fail = saved


def raw_out(records, bits):
    """Expected raw data file: (circuit, measurements) records in order."""
    def pred(data):
        recs = data["raw-data"]
        if len(recs) != len(records):
            return "%d records instead of %d" % (len(recs), len(records))
        for rec, (c, m) in zip(recs, records):
            if m is None:
                if rec.get("data_type") == "measurement" or rec["number_of_gates"] != len(c.operations):
                    return "record %s of a distribution" % A.brief(rec)
                continue
            if rec["counts"] != m.get_counts() or rec["number_of_shots"] != len(m.bitstrings) or rec["number_of_gates"] != len(c.operations):
                return "record %s instead of that of %s" % (A.brief(rec), m.get_counts())
            if bits and [tuple(b) for b in rec["bitstrings"]] != [tuple(b) for b in m.bitstrings]:
                return "bitstrings %s" % A.brief(rec.get("bitstrings"))
        return None
    return Out("json", pred=pred)


# ------------------------------------------------------------------ circuit steps
@step("circuit.generate_random_ansatz_params")
def _(I, r):
    kw = dict(seed=r.choice([0, 1, 5, 1234]))
    lo, hi = -np.pi * 0.5, np.pi * 0.5
    if r.random() < 0.5:
        lo = round(r.uniform(-3, 0), 2)
        hi = round(r.uniform(0.1, 3), 2)
        kw.update(min_value=lo, max_value=hi)
    if r.random() < 0.5:
        d, a, k = ansatz_specs(r)
        kw["ansatz_specs"] = I.specs(r, d)
    else:
        k = r.randrange(0, 6)
        kw["number_of_parameters"] = k
    return kw, {"params.json": Out("array", pred=lambda a: None if a.shape == (k,) and all(lo <= x <= hi for x in a) else "parameters %s, wanted %d in [%s, %s]" % (a, k, lo, hi))}


@step("circuit.combine_ansatz_params")
def _(I, r):
    p1, a1 = I.give(r, "array", lambda: params(r, r.randrange(0, 5)), False, ok=lambda a: a.ndim == 1)
    p2, a2 = I.give(r, "array", lambda: params(r, r.randrange(0, 5)), False, ok=lambda a: a.ndim == 1)
    return dict(params1=p1, params2=p2), {"combined-params.json": Out("array", np.array(list(a1) + list(a2)))}


@step("circuit.build_ansatz_circuit")
def _(I, r):
    d, a, k = ansatz_specs(r)
    kw = dict(ansatz_specs=I.specs(r, d))
    x = r.randrange(3)
    if x == 0:
        c = a.parametrized_circuit
    else:
        if x == 1:
            p, v = I.give(r, "array", lambda: params(r, k), False, ok=lambda a: a.shape == (k,))
        else:
            v = params(r, k)
            p = I.plain(v.tolist())
        kw["params"] = p
        c = zc.Circuit([op.bind({sympy.Symbol("theta_%d" % i): x for i, x in enumerate(v)}) for op in a.parametrized_circuit.operations], n_qubits=a.number_of_qubits)
    return kw, {"circuit.json": Out("circuit", c)}


@step("circuit.build_circuit_layers_and_connectivity")
def _(I, r):
    x, y, t = r.choice([(2, None, "nearest-neighbor"), (5, None, "nearest-neighbor"), (3, 3, "sycamore"), (4, 4, "sycamore")])
    conn, layers = layouts.build_circuit_layers_and_connectivity(x, y, t)
    return dict(x_dimension=x, y_dimension=y, layer_type=t), {"circuit-layers.json": Out("circuit_layers", layers), "circuit-connectivity.json": Out("circuit_connectivity", conn)}


@step("circuit.create_random_circuit")
def _(I, r):
    n, g, s = r.randrange(2, 5), r.randrange(1, 8), r.choice([0, 3, 99])
    return dict(number_of_qubits=n, number_of_gates=g, seed=s), {"circuit.json": Out("circuit", pred=lambda c: None if len(c.operations) >= g and c.n_qubits <= n + 0 else "circuit %s" % (c,))}


@step("circuit.add_ancilla_register_to_circuit")
def _(I, r):
    p, c = I.give(r, "circuit", lambda: circ(r, 3, r.random() < 0.5))
    k = r.randrange(1, 4)
    want = zc.Circuit(list(c.operations) + [zc.I(c.n_qubits + j) for j in range(k)], n_qubits=c.n_qubits + k)
    return dict(number_of_ancilla_qubits=k, circuit=p), {"extended-circuit.json": Out("circuit", want)}


@step("circuit.concatenate_circuits")
def _(I, r):
    p, cs = I.give(r, "circuitset", lambda: [circ(r, 3, r.random() < 0.3) for _ in range(r.randrange(1, 4))], ok=lambda s: len(s) > 0)
    want = zc.Circuit([op for c in cs for op in c.operations], n_qubits=max(c.n_qubits for c in cs))
    return dict(circuit_set=p), {"result-circuit.json": Out("circuit", want)}


@step("circuit.batch_circuits")
def _(I, r):
    got = [I.give(r, "circuit", lambda: circ(r, 3)) for _ in range(r.randrange(0, 4))]
    args = I.plain([g[0] for g in got])
    want = [g[1] for g in got]
    kw = dict(circuits=args)
    if r.random() < 0.7:
        p, cs = I.give(r, "circuitset", lambda: [circ(r, 3) for _ in range(r.randrange(0, 3))])
        kw["circuit_set"] = p
        want = list(cs) + want
    return kw, {"circuit-set.json": Out("circuitset", want)}


@step("circuit.evaluate_parametrized_circuit")
def _(I, r):
    p, c = I.give(r, "circuit", lambda: circ(r, 3, True), ok=lambda c: all(len(o.free_symbols) <= 1 for o in c.operations))
    syms = []
    for o in c.operations:
        for s in o.free_symbols:
            if s not in syms:
                syms.append(s)
    v = params(r, len(syms))
    if r.random() < 0.5:
        pv = I.path("array", v)
    else:
        pv = I.plain(v.copy())
    m = dict(zip(syms, v.tolist()))
    want = zc.Circuit([o.bind(m) for o in c.operations], n_qubits=c.n_qubits)
    return dict(parametrized_circuit=p, parameters=pv), {"evaluated-circuit.json": Out("circuit", want)}


# ------------------------------------------------------------------ evaluation steps
def averages(m, op, bessel=False):
    """Expectation values of the terms of a diagonal operator, by counting."""
    vals = []
    for term, coeff in op.terms.items():
        vals.append(coeff * np.mean([np.prod([1 - 2 * b[q] for q, _ in term]) if term else 1 for b in m.bitstrings]))
    return np.array(vals)


@step("evaluation.get_expectation_values_for_qubit_operator")
def _(I, r):
    n = r.choice([5, 20])
    b, _, settings, raw, d = backend(r, I, n, noise=False)
    c = circ(r, 3)
    p = r.choice([lambda: I.path("circuit", c), lambda: I.plain(zc.to_dict(c)), lambda: c])()
    o = zop(r, 3)
    if r.random() < 0.5:
        o = IsingOperator()
        for t, v in zop(r, 3).terms.items():
            o += IsingOperator(t, v)
        po = o
    elif r.random() < 0.5:
        po = I.path("qubit_operator", o)
    else:
        po = I.plain(of.convert_qubitop_to_dict(o))
    if not isinstance(po, str) and not isinstance(po, dict):
        I.objects.append((po, keep(po)))
    m = quiet_outcome(I, c, n, settings)
    want = averages(m, o)
    outs = {"expectation-values.json": Out("expectation_values", pred=lambda e: None if e.values.shape == want.shape and np.allclose(e.values, want, atol=1e-9) else "values %s instead of %s" % (e.values, want))}
    if raw:
        outs[raw] = raw_out([(c, m)], d.get("record_bitstrings"))
    return dict(backend_specs=b, circuit=p, qubit_operator=po), outs


@step("evaluation.get_ground_state_rdm_from_qubit_operator")
def _(I, r):
    op = of.jordan_wigner(iop(r, 2))
    op = of.QubitOperator() + sum((QubitOperator(t, complex(c).real) for t, c in op.terms.items()), QubitOperator())
    p, o = I.give(r, "qubit_operator", lambda: op, ok=lambda o: False)
    k = r.randrange(1, 3)
    want = of.get_ground_state_rdm_from_qubit_op(o, k)
    return dict(qubit_operator=p, n_particles=k), {"rdms.json": Out("interaction_rdm", pred=lambda g: None if np.allclose(g.one_body_tensor, want.one_body_tensor, atol=1e-6) and np.allclose(g.two_body_tensor, want.two_body_tensor, atol=1e-6) else "other density matrices")}


@step("evaluation.jw_get_ground_state_at_particle_number")
def _(I, r):
    op = QubitOperator()
    for t, v in of.jordan_wigner(iop(r, 3)).terms.items():
        op += QubitOperator(t, complex(v).real)
    p, o = I.give(r, "qubit_operator", lambda: op, ok=lambda o: False)
    k = r.randrange(0, 4)
    m = qubit_operator_sparse(o)
    full = m.toarray()
    e, _ = jw_get_ground_state_at_particle_number(m, k)
    dim = full.shape[0]
    sector = [i for i in range(dim) if bin(i).count("1") == k]
    low = np.linalg.eigvalsh(full[np.ix_(sector, sector)])[0] if sector and np.allclose(full, full.conj().T) else e

    def state(w):
        a = np.array(w.amplitudes).ravel()
        if len(a) != dim or abs(np.vdot(a, a) - 1) > 1e-6:
            return "state %s" % a
        if abs(np.vdot(a, full @ a) - low) > 1e-6:
            return "energy %s instead of %s" % (np.vdot(a, full @ a), low)
        return None
    return dict(particle_number=k, qubit_operator=p), {"ground-state.json": Out("wavefunction", pred=state), "value-estimate.json": Out("value_estimate", pred=lambda v: None if abs(v - low) < 1e-6 else "energy %s instead of %s" % (v, low))}


@step("evaluation.evaluate_qubit_operator_list")
def _(I, r):
    p, ops = I.give(r, "qubit_operator_set", lambda: [qop(r) for _ in range(r.randrange(1, 3))], ok=lambda o: 0 < sum(len(x.terms) for x in o))
    k = sum(len(o.terms) for o in ops)
    vals = np.array([round(r.uniform(-1, 1), 3) for _ in range(k)])
    pe, _ = I.give(r, "expectation_values", lambda: ExpectationValues(vals.copy()), ok=lambda o: False)
    total, i = 0, 0
    for o in ops:
        for t, c in o.terms.items():
            total += complex(c).real * vals[i]
            i += 1
    return dict(qubit_operator_list=p, expectation_values=pe), {"value-estimate.json": Out("value_estimate", pred=lambda v: None if abs(v - total) < 1e-9 else "value %s instead of %s" % (v, total))}


# ------------------------------------------------------------------ graph steps
def sampler(r, I, kw):
    if r.random() < 0.4:
        v = r.choice([2.5, 7])
        kw["sampler_specs"] = I.specs(r, {"module_name": "zquantum.core.graph", "function_name": "constant_sampler", "value": v})
        return v
    if r.random() < 0.4:
        kw["sampler_specs"] = I.specs(r, {"module_name": "zquantum.core.graph", "function_name": "uniform_sampler", "min_value": -1, "max_value": 2})
        return "uniform"
    return 1


def graph_out(nodes, edges, weight):
    def pred(g):
        if g.number_of_nodes() != nodes:
            return "%d nodes instead of %d" % (g.number_of_nodes(), nodes)
        if edges is not None and g.number_of_edges() != edges:
            return "%d edges instead of %d" % (g.number_of_edges(), edges)
        for a, b, d in g.edges(data=True):
            w = d.get("weight")
            if w is None or (weight == "uniform" and not -1 <= w <= 2) or (weight != "uniform" and w != weight):
                return "weight %s" % w
        return None
    return {"graph.json": Out("graph", pred=pred)}


@step("graph.generate_random_graph_erdos_renyi")
def _(I, r):
    kw = dict(number_of_nodes=r.randrange(1, 7), edge_probability=r.choice([0.0, 0.4, 1.0]), seed=r.choice([0, 3]))
    w = sampler(r, I, kw)
    n = kw["number_of_nodes"]
    return kw, graph_out(n, {0.0: 0, 1.0: n * (n - 1) // 2}.get(kw["edge_probability"]), w)


@step("graph.generate_random_regular_graph")
def _(I, r):
    n, d = r.choice([(4, 3), (6, 3), (5, 2), (4, 0)])
    kw = dict(number_of_nodes=n, degree=d, seed=r.choice([0, 3]))
    return kw, graph_out(n, n * d // 2, sampler(r, I, kw))


@step("graph.generate_complete_graph")
def _(I, r):
    n = r.randrange(1, 7)
    kw = dict(number_of_nodes=n, seed=r.choice([0, 3]))
    return kw, graph_out(n, n * (n - 1) // 2, sampler(r, I, kw))


@step("graph.generate_caveman_graph")
def _(I, r):
    a, b = r.randrange(1, 4), r.randrange(1, 4)
    kw = dict(number_of_cliques=a, size_of_cliques=b, seed=r.choice([0, 3]))
    return kw, graph_out(a * b, a * b * (b - 1) // 2, sampler(r, I, kw))


@step("graph.generate_ladder_graph")
def _(I, r):
    n = r.randrange(1, 5)
    kw = dict(length_of_ladder=n, seed=r.choice([0, 3]))
    return kw, graph_out(2 * n, 3 * n - 2, sampler(r, I, kw))


@step("graph.generate_barbell_graph")
def _(I, r):
    n = r.randrange(2, 5)
    kw = dict(number_of_vertices_complete_graph=n, seed=r.choice([0, 3]))
    return kw, graph_out(2 * n, n * (n - 1) + 1, sampler(r, I, kw))


@step("graph.generate_graph_from_specs")
def _(I, r):
    n = r.randrange(2, 6)
    d = r.choice([{"type_graph": "complete", "num_nodes": n, "seed": 1}, {"type_graph": "erdos_renyi", "num_nodes": n, "probability": 1.0, "seed": 0}])
    return dict(graph_specs=json.dumps(d)), {"graph.json": Out("graph", pred=lambda g: None if g.number_of_nodes() == n and g.number_of_edges() == n * (n - 1) // 2 else "graph %s" % g)}


# ------------------------------------------------------------------ measuring steps
@step("measure.run_circuit_and_measure")
def _(I, r):
    b, kw, settings, raw, d = backend(r, I)
    p, c = I.give(r, "circuit", lambda: circ(r, 3), False, ok=lambda c: not c.free_symbols and c.n_qubits <= 4)
    if r.random() < 0.3 and not I.chained:
        p = I.plain(zc.to_dict(c))
    n = r.choice([1, 5, 20])
    m = quiet_outcome(I, c, n, settings)
    outs = {"measurements.json": Out("measurements", m)}
    if raw:
        outs[raw] = raw_out([(c, m)], d.get("record_bitstrings"))
    return dict(kw, backend_specs=b, circuit=p, n_samples=n), outs


@step("measure.run_circuitset_and_measure")
def _(I, r):
    b, kw, settings, raw, d = backend(r, I)
    p, cs = I.give(r, "circuitset", lambda: [circ(r, 3) for _ in range(r.randrange(1, 4))], False, ok=lambda s: s and all(not c.free_symbols and c.n_qubits <= 4 for c in s))
    n = r.choice([1, 5])
    ms = [quiet_outcome(I, c, n, settings) for c in cs]
    outs = {"measurements-set.json": Out("list", pred=lambda l: None if [[tuple(x) for x in m] for m in l] == [[tuple(x) for x in m.bitstrings] for m in ms] else "measurements %s" % A.brief(l))}
    if raw:
        outs[raw] = raw_out(list(zip(cs, ms)), d.get("record_bitstrings"))
    return dict(kw, backend_specs=b, circuitset=p, n_samples=n), outs


@step("measure.get_bitstring_distribution")
def _(I, r):
    b, kw, settings, raw, d = backend(r, I)
    p, c = I.give(r, "circuit", lambda: circ(r, 3), False, ok=lambda c: not c.free_symbols and c.n_qubits <= 4)
    psi = np.zeros(2 ** c.n_qubits, dtype=complex)
    psi[0] = 1
    for o in c.operations:
        psi = np.array(o.apply(psi))
    pr = np.abs(psi) ** 2
    want = {tuple(int(x) for x in format(i, "0%db" % c.n_qubits)): pr[i] for i in range(len(pr))}

    def pred(dist):
        got = dist.distribution_dict
        for k in set(got) | set(want):
            if abs(got.get(k, 0) - want.get(k, 0)) > 1e-6:
                return "%s instead of %s" % (got, want)
        return None
    outs = {"bitstring-distribution.json": Out("distribution", pred=pred)}
    if raw:
        outs[raw] = raw_out([(c, None)], False)
    return dict(kw, backend_specs=b, circuit=p), outs


@step("measure.evaluate_ansatz_based_cost_function")
def _(I, r):
    n = r.choice([4, 12])
    b, kw, settings, raw, d = backend(r, I)
    spec, a, k = ansatz_specs(r)
    pa, v = I.give(r, "array", lambda: params(r, k), False, ok=lambda x: x.shape == (k,))
    o = zop(r, a.number_of_qubits)
    po, o = I.give(r, "qubit_operator", lambda: o, ok=lambda q: False)
    pre = [{"module_name": "zquantum.core.estimation", "function_name": "allocate_shots_uniformly", "number_of_shots": n}]
    pre = [json.dumps(x) if r.random() < 0.5 else x for x in pre]
    cost = {"module_name": "zquantum.core.cost_function", "function_name": "AnsatzBasedCostFunction"}
    c = a.get_executable_circuit(v)
    m = quiet_outcome(I, c, n, settings)
    want = float(np.sum(averages(m, o)).real)
    args = dict(kw, ansatz_specs=I.specs(r, spec), backend_specs=b, cost_function_specs=I.specs(r, cost), ansatz_parameters=pa, target_operator=po, estimation_preprocessors_specs=I.plain(pre))
    if r.random() < 0.4:
        args["estimation_method_specs"] = I.specs(r, {"module_name": "zquantum.core.estimation", "function_name": "estimate_expectation_values_by_averaging"})
    if r.random() < 0.3:
        e = ExpectationValues(np.array([0.5]))
        args["prior_expectation_values"] = I.path("expectation_values", e)
    outs = {"value_estimate.json": Out("value_estimate", pred=lambda x: None if abs(x - want) < 1e-9 else "value %s instead of %s" % (x, want))}
    if raw and any(t for t in o.terms):
        outs[raw] = raw_out([(c, m)], d.get("record_bitstrings"))
    return args, outs


@step("measure.grouped_hamiltonian_analysis")
def _(I, r):
    p, ops = I.give(r, "qubit_operator_set", lambda: [zop(r, 3, False) for _ in range(r.randrange(1, 3))], False, ok=lambda s: False)
    kw = dict(groups=p)
    e = None
    if r.random() < 0.5:
        k = sum(len(o.terms) for o in ops)
        e = ExpectationValues(np.array([round(r.uniform(-0.9, 0.9), 3) for _ in range(k)]))
        kw["expectation_values"] = I.path("expectation_values", e)
    # precision of one group with uncorrelated terms
    want, i = [], 0
    for o in ops:
        var = 0
        for t, c in o.terms.items():
            ev = e.values[i] if e is not None else 0
            i += 1
            var += abs(c) ** 2 - (ev ** 2 if e is not None else 0)
        want.append(np.sqrt(max(var, 0)))
    total = sum(want) ** 2
    return kw, {"hamiltonian_analysis.json": Out("nmeas_estimate", pred=lambda t: None if t[1] == i and len(t[2]) == len(ops) else "estimate %s (%s terms)" % (t, i))}


@step("measure.expectation_values_from_rdms")
def _(I, r):
    rdm = of.hf_rdm(1, 1, 2)
    p, _ = I.give(r, "interaction_rdm", lambda: rdm, False, ok=lambda o: False)
    pq, o = I.give(r, "qubit_operator", lambda: zop2(r, 4), False, ok=lambda o: False)
    s = r.random() < 0.5
    want = ham.get_expectation_values_from_rdms(rdm, o, sort_terms=s)
    return dict(interactionrdm=p, qubit_operator=pq, sort_terms=s), {"expectation_values.json": Out("expectation_values", pred=lambda e: None if np.allclose(e.values, want.values) else "values %s" % e.values)}


@step("measure.expectation_values_from_rdms_for_qubitoperator_list")
def _(I, r):
    rdm = of.hf_rdm(1, 1, 2)
    p, _ = I.give(r, "interaction_rdm", lambda: rdm, False, ok=lambda o: False)
    pq, ops = I.give(r, "qubit_operator_set", lambda: [zop2(r, 4) for _ in range(r.randrange(1, 3))], False, ok=lambda o: False)
    want = np.concatenate([ham.get_expectation_values_from_rdms(rdm, o).values for o in ops])
    return dict(interactionrdm=p, qubit_operator_list=pq), {"expectation_values.json": Out("expectation_values", pred=lambda e: None if np.allclose(e.values, want) else "values %s" % e.values)}


@step("measure.get_summed_expectation_values")
def _(I, r):
    pm, m = I.give(r, "measurements", lambda: quiet_outcome(I, circ(r, 3), r.choice([2, 9]), ""), ok=lambda m: len(m.bitstrings) > 1 and len(m.bitstrings[0]) >= 3)
    if r.random() < 0.6:
        po, o = I.give(r, "qubit_operator", lambda: zop(r, 3), False, ok=lambda o: False)
    else:
        o = IsingOperator()
        for t, v in zop(r, 3).terms.items():
            o += IsingOperator(t, v)
        po = o
        I.objects.append((o, keep(o)))
    want = float(np.sum(averages(m, o)).real)
    return dict(operator=po, measurements=pm), {"value-estimate.json": Out("value_estimate", pred=lambda v: None if abs(v - want) < 1e-9 else "value %s instead of %s" % (v, want))}


# ------------------------------------------------------------------ operator steps
def near(kind, want):
    def pred(o):
        if hasattr(want, "terms"):
            d = o - want if type(o) is type(want) else None
            if d is None:
                return "type %s" % type(o).__name__
            return None if all(abs(c) < 1e-9 for c in d.terms.values()) else "%s instead of %s" % (A.brief(o), A.brief(want))
        ok = abs(o.constant - want.constant) < 1e-9 and np.allclose(o.one_body_tensor, want.one_body_tensor) and np.allclose(o.two_body_tensor, want.two_body_tensor)
        return None if ok else "another interaction operator"
    return Out(kind, pred=pred)


@step("operators.get_local_zero_state_operator")
def _(I, r):
    n = r.randrange(1, 5)
    want = QubitOperator((), 1.0)
    for q in range(n):
        want -= QubitOperator("Z%d" % q, 1 / n)
    return dict(number_of_qubits=n), {"qubit-operator.json": near("qubit_operator", want)}


@step("operators.get_fermion_number_operator")
def _(I, r):
    n, k = r.randrange(1, 5), r.choice([None, 1, 2])
    want = InteractionOperator(-k if k is not None else 0.0, np.eye(n), np.zeros((n,) * 4))
    return dict(number_of_qubits=n, number_of_particles=k), {"number-operator.json": near("interaction_operator", want)}


@step("operators.get_diagonal_component")
def _(I, r):
    p, o = I.give(r, "interaction_operator", lambda: iop(r, 2), ok=lambda o: False)
    d, m = of.get_diagonal_component(copy.deepcopy(o))
    return dict(interaction_operator=p), {"diagonal-operator.json": near("interaction_operator", d), "remainder-operator.json": near("interaction_operator", m)}


@step("operators.interpolate_qubit_operators")
def _(I, r):
    p1, a = I.give(r, "qubit_operator", lambda: qop(r))
    p2, b = I.give(r, "qubit_operator", lambda: qop(r))
    e = r.choice([0.0, 0.25, 1.0])
    want = QubitOperator()
    for t, c in b.terms.items():
        want += QubitOperator(t, e * c)
    for t, c in a.terms.items():
        want += QubitOperator(t, (1 - e) * c)
    return dict(reference_qubit_operator=p1, target_qubit_operator=p2, epsilon=e), {"qubit-operator.json": near("qubit_operator", want)}


@step("operators.reorder_fermionic_modes")
def _(I, r):
    p, o = I.give(r, "interaction_operator", lambda: iop(r, 3), False, ok=lambda o: False)
    order = [0, 1, 2]
    r.shuffle(order)
    want = ham.reorder_fermionic_modes(copy.deepcopy(o), list(order))
    return dict(interaction_operator=p, ordering=I.plain(order)), {"reordered-operator.json": near("interaction_operator", want)}


@step("operators.get_one_qubit_hydrogen_hamiltonian")
def _(I, r):
    p, o = I.give(r, "interaction_operator", lambda: iop(r, 4), ok=lambda o: False)
    return dict(interaction_operator=p), {"qubit-operator.json": Out("qubit_operator", pred=lambda q: None if set(len(t) for t in q.terms) <= {0, 1} and all(t == () or t[0][0] == 0 for t in q.terms) and q.terms else "operator %s" % q)}


@step("operators.remove_inactive_orbitals")
def _(I, r):
    p, o = I.give(r, "interaction_operator", lambda: iop(r, 4), False, ok=lambda o: False)
    kw = r.choice([dict(n_active=1), dict(n_core=1), dict(n_active=1, n_core=1)])
    want = of.remove_inactive_orbitals(copy.deepcopy(o), **dict(dict(n_core=0), **kw))
    return dict(kw, interaction_operator=p), {"frozen-operator.json": near("interaction_operator", want)}


@step("operators.create_one_qubit_operator")
def _(I, r):
    x, y, z, c = [round(r.uniform(-2, 2), 3) for _ in range(4)]
    want = QubitOperator("X0", x) + QubitOperator("Y0", y) + QubitOperator("Z0", z) + QubitOperator((), c)
    return dict(x_coeff=x, y_coeff=y, z_coeff=z, constant=c), {"qubit_operator.json": near("qubit_operator", want)}


@step("operators.group_comeasureable_terms_greedy")
def _(I, r):
    p, o = I.give(r, "qubit_operator", lambda: qop(r), ok=lambda o: bool(o.terms))

    def pred(groups):
        got = {}
        for g in groups:
            for t, c in g.terms.items():
                if t in got:
                    return "term %s twice" % (t,)
                got[t] = c
            ts = list(g.terms)
            for a in ts:
                for b in ts:
                    da, db = dict(a), dict(b)
                    if any(da[q] != db[q] for q in da if q in db):
                        return "group %s" % g
        if set(got) != set(o.terms) or any(abs(got[t] - o.terms[t]) > 1e-9 for t in got):
            return "terms %s instead of %s" % (got, o.terms)
        return None
    return dict(qubit_operator=p, sort_terms=r.random() < 0.5), {"grouped-operator.json": Out("qubit_operator_set", pred=pred)}


@step("operators.concatenate_qubit_operator_lists")
def _(I, r):
    pa, a = I.give(r, "qubit_operator_set", lambda: [qop(r) for _ in range(r.randrange(0, 3))])
    pb, b = I.give(r, "qubit_operator_set", lambda: [qop(r) for _ in range(r.randrange(0, 3))])
    return dict(qubit_operator_list_A=pa, qubit_operator_list_B=pb), {"concatenated-qubit-operators.json": Out("qubit_operator_set", list(a) + list(b))}


@step("operators.create_random_qubitop")
def _(I, r):
    n, t = r.randrange(1, 4), r.randrange(1, 4)
    return dict(nqubits=n, nterms=t), {"qubit-operator.json": Out("qubit_operator", pred=lambda q: None if all(q < n for tt in q.terms for q, _ in tt) else "operator %s" % q)}


# ------------------------------------------------------------------ optimizing steps
def optimize_common(I, r, cost, k):
    spec = {"module_name": "stepstubs", "function_name": "StepOptimizer", "n": r.randrange(1, 4)}
    init = params(r, k)
    x = r.randrange(3)
    ini = I.path("array", init) if x == 0 else I.plain(init.copy()) if x == 1 else I.plain(init.tolist())
    hist = r.random() < 0.5
    points = [init + 0.1 * j for j in range(spec["n"])]
    return spec, ini, hist, points


def optimize_outs(I, evaluate, points, hist, raw, d, records):
    vals = [evaluate(p) for p in points]
    best = min(range(len(vals)), key=lambda j: vals[j])

    def at_best(a):
        # points whose values tie up to rounding are all optimal
        return any(abs(v - vals[best]) < 1e-9 and np.shape(a) == p.shape and np.allclose(a, p) for v, p in zip(vals, points))

    def pred(res):
        if abs(res["opt_value"] - vals[best]) > 1e-9 or not at_best(res["opt_params"]):
            return "optimum %s at %s instead of %s at %s" % (res["opt_value"], res["opt_params"], vals[best], points[best])
        h = res.get("history", [])
        if hist and (len(h) != len(points) or any(not np.allclose(e.params, p) or abs(float(e.value) - v) > 1e-9 for e, p, v in zip(h, points, vals))):
            return "history %s" % A.brief(h)
        return None
    outs = {"optimization-results.json": Out("optimization_results", pred=pred), "optimized-parameters.json": Out("array", pred=lambda a: None if at_best(a) else "parameters %s instead of %s" % (a, points[best]))}
    if raw:
        outs[raw] = raw_out(records, d.get("record_bitstrings"))
    return outs


@step("optimize.optimize_parametrized_circuit_for_ground_state_of_operator")
def _(I, r):
    n = r.choice([4, 12])
    b, _, settings, raw, d = backend(r, I, noise=False)
    c = circ(r, 3, True)
    p, c = I.give(r, "circuit", lambda: c, ok=lambda c: False)
    o = zop(r, 3, False)
    po, o = I.give(r, "qubit_operator", lambda: o, ok=lambda q: False)
    syms = sorted(c.free_symbols, key=zc.natural_key)
    fixed = None
    k = len(syms)
    if k > 1 and r.random() < 0.4:
        fixed = params(r, 1)
        k -= 1
    spec, ini, hist, points = optimize_common(I, r, None, k)
    pre = [{"module_name": "zquantum.core.estimation", "function_name": "allocate_shots_uniformly", "number_of_shots": n}]
    kw = dict(optimizer_specs=I.specs(r, spec), target_operator=po, parametrized_circuit=p, backend_specs=b, estimation_preprocessors_specs=I.plain([json.dumps(x) if r.random() < 0.5 else x for x in pre]), initial_parameters=ini, keep_history=hist)
    if fixed is not None:
        kw["fixed_parameters"] = I.path("array", fixed) if r.random() < 0.5 else I.plain(fixed.copy())
    records = []

    def evaluate(p):
        full = np.concatenate([fixed, p]) if fixed is not None else p
        bound = c.bind(dict(zip(syms, full)))
        m = quiet_outcome(I, bound, n, settings)
        records.append((bound, m))
        return float(np.sum(averages(m, o)).real)
    return kw, optimize_outs(I, evaluate, points, hist, raw, d, records)


@step("optimize.optimize_ansatz_based_cost_function")
def _(I, r):
    n = r.choice([4, 12])
    b, _, settings, raw, d = backend(r, I, noise=False)
    aspec, a, k = ansatz_specs(r)
    o = zop(r, a.number_of_qubits, False)
    po, o = I.give(r, "qubit_operator", lambda: o, ok=lambda q: False)
    fixed = None
    free = k
    if k > 1 and r.random() < 0.4:
        fixed = params(r, 1)
        free -= 1
    spec, ini, hist, points = optimize_common(I, r, None, free)
    pre = [{"module_name": "zquantum.core.estimation", "function_name": "allocate_shots_uniformly", "number_of_shots": n}]
    kw = dict(optimizer_specs=I.specs(r, spec), target_operator=po, ansatz_specs=I.specs(r, aspec), backend_specs=b, estimation_preprocessors_specs=I.plain([json.dumps(x) if r.random() < 0.5 else x for x in pre]), initial_parameters=ini, keep_history=hist)
    if fixed is not None:
        kw["fixed_parameters"] = I.path("array", fixed) if r.random() < 0.5 else I.plain(fixed.copy())
    records = []

    def evaluate(p):
        full = np.concatenate([fixed, p]) if fixed is not None else p
        bound = a.get_executable_circuit(full)
        m = quiet_outcome(I, bound, n, settings)
        records.append((bound, m))
        return float(np.sum(averages(m, o)).real)
    return kw, optimize_outs(I, evaluate, points, hist, raw, d, records)


# ------------------------------------------------------------------ transforms, utils
@step("transforms.transform_interaction_operator")
def _(I, r):
    p, o = I.give(r, "interaction_operator", lambda: iop(r, 2), ok=lambda o: o.n_qubits == 2)
    t = r.choice(["Jordan-Wigner", "Bravyi-Kitaev"])
    f = of.get_fermion_operator(copy.deepcopy(o))
    want = of.jordan_wigner(f) if t == "Jordan-Wigner" else of.bravyi_kitaev(f)
    return dict(transformation=t, input_operator=p), {"transformed-operator.json": near("qubit_operator", want), "timing.json": Out("timing", pred=lambda d: None if d["walltime"] >= 0 else "walltime %s" % d)}


@step("utils.generate_random_list_of_integers")
def _(I, r):
    n = r.randrange(0, 6)
    return dict(seed=r.choice([0, 8]), low=3, high=9, size=n), {"integers.json": Out("list", pred=lambda l: None if len(l) == n and all(3 <= x < 9 for x in l) else "integers %s" % l)}


NAMES = sorted(STEPS)
UNSEEDED = {"operators.create_random_qubitop"}
VOLATILE = {"timing.json"}
# start from a random vector and converge to rounding only (a state: also up to phase); their content is judged by `pred`
ITERATIVE = {"evaluation.get_ground_state_rdm_from_qubit_operator", "evaluation.jw_get_ground_state_at_particle_number"}
