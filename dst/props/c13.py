"""C13: a seed fixes the result whatever else uses randomness."""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

import numpy as np

import stubs
import zquantum.core.graph as G
import zquantum.core.openfermion.testing as oft
import zquantum.core.testing as T
from kernel import InjectedError, Violation
from zquantum.core import circuits as zc
from zquantum.core.cost_function import AnsatzBasedCostFunction, add_normal_noise, create_cost_function, expectation_value_estimation_tasks_factory, get_ground_state_cost_function
from zquantum.core.estimation import calculate_exact_expectation_values
from zquantum.core.interfaces.mock_objects import MockAnsatz
from zquantum.core.measurement import sample_from_wavefunction
from zquantum.core.openfermion import QubitOperator
from zquantum.core.symbolic_simulator import SymbolicSimulator

ID = "C13"
RUNS = {"quick": 2400, "thorough": 150000}
RULE = ("each run: 1-3 interleaved clients with drawn histories of seeded operations (28 kinds, small seeds incl. 0), every operation repeated under different histories, orders and global generator states, while other "
        "clients draw from and reseed the global generators at every seam event; now and then the same operation in a fresh process with another hash seed; non-trivial = other random activity or a client switch happened between two executions")
REAL = ["SymbolicSimulator and sample_from_wavefunction", "graph generators and samplers", "random circuits, operators, wavefunctions, Hamiltonians", "random steps", "seeded parameter noise of cost functions"]
STUB = ["expectation value estimator of the cost functions (yields, then exact)", "client scheduling", "unseeded generators (entropy from the scenario)"]
ASSUMPTIONS = ["no other thread draws from the global generators while a seeded call that uses them is executing"]
PROBES = ["seed-zero", "repeat-same-client", "repeat-other-client", "global-drawn", "global-reseeded", "different-seeds", "fresh-process", "call-failed-between", "generator-argument", "interleaved-noise", "many-calls"]

SEEDS = [0, 0, 1, 2, 7, 42, 1997, 65537, 2 ** 31 + 5]


def fp(x):
    """Exact, comparable image of a result."""
    if isinstance(x, (list, tuple)):
        return [fp(y) for y in x]
    if isinstance(x, dict):
        return [[fp(k), fp(v)] for k, v in x.items()]
    if isinstance(x, np.ndarray):
        return [list(x.shape), [fp(y) for y in x.ravel().tolist()]]
    if isinstance(x, float):
        return [float(x).hex(), fp(getattr(x, "precision", None))]
    if isinstance(x, complex):
        return [x.real.hex(), x.imag.hex()]
    if hasattr(x, "edges"):
        return [fp(sorted(x.nodes)), fp([(a, b, dict(d)) for a, b, d in x.edges(data=True)])]
    if hasattr(x, "terms"):
        return fp([[str(t), complex(c)] for t, c in x.terms.items()])
    if hasattr(x, "one_body_tensor"):
        return [fp(complex(x.constant)), fp(x.one_body_tensor), fp(x.two_body_tensor)]
    if hasattr(x, "bitstrings"):
        return fp(x.bitstrings)
    if hasattr(x, "distribution_dict"):
        return fp(x.distribution_dict)
    if hasattr(x, "amplitudes"):
        return fp(np.asarray(x.amplitudes, dtype=complex))
    return repr(x)


def state(n, k):
    r = np.random.RandomState(k)
    v = r.randn(2 ** n) + 1j * r.randn(2 ** n)
    from zquantum.core.wavefunction import Wavefunction
    return Wavefunction(v / np.linalg.norm(v))


def sampler(k):
    return [lambda: G.constant_sampler(2.0), lambda: G.uniform_sampler(-1, 1), lambda: G.choice_sampler([1, 2, 3, 4, 5, 6, 7]), lambda: G.normal_sampler(0.5, 2.0), G.uniform_sampler][k % 5]()


def simulator(sim, s, k):
    """A whole history on one seeded simulator."""
    b = SymbolicSimulator(seed=s)
    c = [stubs.n_circuit(i, 3, 5, 3) + zc.H(0) + zc.H(1) + zc.H(2) for i in (k, k + 1)]
    out = [fp(b.run_circuit_and_measure(c[0], 12))]
    sim.event("between")
    out.append(fp(b.run_circuitset_and_measure(c, [5, 9])))
    sim.event("between")
    out.append(fp(b.get_measurement_outcome_distribution(c[1], 20)))
    try:
        b.run_circuit_and_measure(c[0], 0)
    except ValueError:
        pass
    out.append(fp(b.run_circuit_and_measure(c[1], 6)))
    return out


def in_dir(sim, f, *names):
    """Run a step in a directory of its own; the artifacts are the result."""
    here = os.getcwd()
    d = os.path.join(tempfile.gettempdir(), "dst13-%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    try:
        os.chdir(d)
        f()
        out = []
        for n in names:
            with open(n) as h:
                out.append(json.load(h))
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
    return fp(out)


def estimator(sim):
    def estimate(backend, tasks):
        sim.event("estimate")
        out = calculate_exact_expectation_values(backend, tasks)
        sim.event("estimated")
        return out
    return estimate


def noisy(sim, s, k):
    op = QubitOperator("Z0", 1.5) + QubitOperator("Z0 Z1", -0.5)
    est = estimator(sim)
    p = np.array([0.3, -1.1])
    out = []
    if k % 3 == 0:
        f = AnsatzBasedCostFunction(op, MockAnsatz(2, 2), SymbolicSimulator(), est, parameter_precision=0.3, parameter_precision_seed=s)
    elif k % 3 == 1:
        f = get_ground_state_cost_function(op, MockAnsatz(2, 2).parametrized_circuit, SymbolicSimulator(), est, parameter_precision=0.3, parameter_precision_seed=s, fixed_parameters=np.array([0.2]) if k % 2 else None)
        p = p[1:] if k % 2 else p
    else:
        f = create_cost_function(SymbolicSimulator(), expectation_value_estimation_tasks_factory(op, MockAnsatz(2, 2).parametrized_circuit), est, [add_normal_noise(0.3, s)])
    for q in (p, p, p + 0.5):
        out.append(fp(f(q)))
        sim.event("between")
    return out


def step(name):
    import steps.circuit
    import steps.graph
    import steps.utils
    for m in (steps.circuit, steps.graph, steps.utils):
        if hasattr(m, name):
            return getattr(m, name)


SPECS = {"module_name": "zquantum.core.graph", "function_name": "uniform_sampler"}

OPS = {
    "sample": lambda sim, s, k: fp(sample_from_wavefunction(state(2 + k % 2, k), 16, s)),
    "simulator": simulator,
    "erdos": lambda sim, s, k: fp(G.generate_random_graph_erdos_renyi(7, 0.5, sampler(k), s)),
    "regular": lambda sim, s, k: fp(G.generate_random_regular_graph(8, 3, sampler(k), s)),
    "caveman": lambda sim, s, k: fp(G.generate_caveman_graph(2, 4, sampler(k), s)),
    "ladder": lambda sim, s, k: fp(G.generate_ladder_graph(4, sampler(k), s)),
    "barbell": lambda sim, s, k: fp(G.generate_barbell_graph(4, sampler(k), s)),
    "specs": lambda sim, s, k: fp(G.generate_graph_from_specs(dict(
        type_graph=["erdos_renyi", "regular", "complete", "caveman", "ladder", "barbell"][k % 6], num_nodes=8, probability=0.5, degree=3, number_of_cliques=2, size_of_cliques=4, length_of_ladder=4,
        number_of_vertices_complete_graph=4, random_weights=True, seed=s))),
    "circuit": lambda sim, s, k: repr(zc.create_random_circuit(3, 6, np.random.Generator(np.random.PCG64(s)))),
    "qubitop": lambda sim, s, k: fp(T.create_random_qubitop(4, 6, s)),
    "isingop": lambda sim, s, k: fp(T.create_random_isingop(5, 7, s)),
    "wavefunction": lambda sim, s, k: fp(T.create_random_wavefunction(3, s)),
    "hermitian": lambda sim, s, k: fp(oft.random_hermitian_matrix(3, k % 2 == 0, s)),
    "antisymmetric": lambda sim, s, k: fp(oft.random_antisymmetric_matrix(3, k % 2 == 0, s)),
    "unitary": lambda sim, s, k: fp(oft.random_unitary_matrix(3, k % 2 == 0, s)),
    "of-qubitop": lambda sim, s, k: fp(oft.random_qubit_operator(6, 6, 4, s)),
    "interaction": lambda sim, s, k: fp(oft.random_interaction_operator(2, k % 2 == 0, k % 3 == 0, s)),
    "interaction-term": lambda sim, s, k: fp(oft.random_interaction_operator_term(2 + k % 2, k % 3 == 0, s)),
    "noise": noisy,
    "step-params": lambda sim, s, k: in_dir(sim, lambda: step("generate_random_ansatz_params")(number_of_parameters=5, seed=s), "params.json"),
    "step-ansatz-params": lambda sim, s, k: in_dir(sim, lambda: step("generate_random_ansatz_params")(
        ansatz_specs=json.dumps({"module_name": "zquantum.core.interfaces.mock_objects", "function_name": "MockAnsatz", "number_of_layers": 3, "problem_size": 2}), min_value=-1, max_value=2, seed=s), "params.json"),
    "step-circuit": lambda sim, s, k: in_dir(sim, lambda: step("create_random_circuit")(4, 6, s), "circuit.json"),
    "step-integers": lambda sim, s, k: in_dir(sim, lambda: step("generate_random_list_of_integers")(seed=s, low=0, high=10 ** 6, size=6), "integers.json"),
    "step-erdos": lambda sim, s, k: in_dir(sim, lambda: step("generate_random_graph_erdos_renyi")(7, 0.5, [SPECS, None][k % 2], s), "graph.json"),
    "step-regular": lambda sim, s, k: in_dir(sim, lambda: step("generate_random_regular_graph")(8, 3, [SPECS, json.dumps(SPECS)][k % 2], s), "graph.json"),
    "step-complete": lambda sim, s, k: in_dir(sim, lambda: step("generate_complete_graph")(5, SPECS, s), "graph.json"),
    "step-ladder": lambda sim, s, k: in_dir(sim, lambda: step("generate_ladder_graph")(4, SPECS, s), "graph.json"),
    "step-barbell": lambda sim, s, k: in_dir(sim, lambda: step("generate_barbell_graph")(4, SPECS, s), "graph.json"),
    "step-caveman": lambda sim, s, k: in_dir(sim, lambda: step("generate_caveman_graph")(2, 4, SPECS, s), "graph.json"),
}
NAMES = sorted(OPS)
# the number of possible results is so large that two seeds giving the same one means the seed was not used
RICH = {"simulator", "wavefunction", "hermitian", "antisymmetric", "unitary", "of-qubitop", "interaction", "noise", "step-params", "step-ansatz-params", "step-integers", "qubitop", "isingop", "step-circuit", "sample",
        "step-complete", "step-ladder", "step-barbell", "step-caveman"}


def generate(rng, tier):
    pool = [[rng.choice(NAMES), rng.choice(SEEDS), rng.randrange(6)] for _ in range(rng.choice([1, 2, 3, 4]))]
    if rng.random() < 0.4:  # the same operation with another seed
        n, s, k = rng.choice(pool)
        # any other one, one with the same low bits, or a neighbour
        pool.append([n, rng.choice([rng.choice([x for x in SEEDS if x != s]), s + 2 ** rng.randrange(3, 31), s + 2 ** rng.choice([8, 10, 16]), s + 10 ** rng.randrange(1, 10), s + 1]), k])
    clients = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        ops = []
        for _ in range(rng.choice([2, 3, 5, 8])):
            x = rng.random()
            if x < 0.6:
                ops.append(dict(op="seeded", i=rng.randrange(len(pool))))
            elif x < 0.8:
                ops.append(dict(op="draw", n=rng.randrange(1, 9), k=rng.randrange(4)))
            elif x < 0.95:
                ops.append(dict(op="reseed", v=rng.choice(SEEDS), k=rng.randrange(3)))
            else:
                ops.append(dict(op="fail", i=rng.randrange(len(pool))))
        clients.append(ops)
    fresh = rng.randrange(1, 1000) if rng.random() < 1 / 200 else None
    if fresh:  # a new process is dear, so every operation is compared in it
        pool += [[n, rng.choice(SEEDS), rng.randrange(6)] for n in NAMES]
    return dict(pool=pool, clients=clients, fresh=fresh, sched=[rng.randrange(3) if rng.random() < 0.5 else 0 for _ in range(rng.choice([0, 30, 80]))])


def disturb(op, sim):
    if op["op"] == "draw":
        sim.probe("global-drawn")
        for _ in range(op["n"]):
            if op["k"] == 0:
                np.random.rand()
            elif op["k"] == 1:
                random.random()
            elif op["k"] == 2:
                np.random.normal()
            else:
                np.random.default_rng().random()
    else:
        sim.probe("global-reseeded")
        if op["k"] != 1:
            np.random.seed(op["v"] % 2 ** 32)
        if op["k"] != 0:
            random.seed(op["v"])
    sim.nontrivial = True


def execute(sim, sc):
    pool = sc["pool"]
    seen = {}  # (kind, seed, variant) -> (result, client)

    def evaluate(name, s, k):
        if s == 0:
            sim.probe("seed-zero")
        if name == "circuit":
            sim.probe("generator-argument")
        if name == "noise":
            sim.probe("interleaved-noise")
        return OPS[name](sim, s, k)

    def record(name, s, k, got, who):
        key = (name, s, k)
        sim.log(name, s, k, hash_of(got))
        if key in seen:
            want, first = seen[key]
            sim.probe("repeat-same-client" if first == who else "repeat-other-client")
            sig = "seed:" + name + (":zero" if s == 0 else "")
            if got != want and sig in sim.known:
                sim.known_hits[sig] += 1
                return
            sim.check(got == want, "seed-not-decisive", lambda: "%s with seed %d (variant %d) first gave %s, now %s" % (name, s, k, str(want)[:700], str(got)[:700]), sig)
        seen[key] = (got, who)
        for (n2, s2, k2), (g2, _) in seen.items():
            if n2 == name and k2 == k and s2 != s and name in RICH:
                sim.probe("different-seeds")
                known = "seed:%s:zero" % name
                if g2 == got and 0 in (s, s2) and known in sim.known:  # seed zero is known to be no seed: equality by chance of the global state
                    sim.known_hits[known] += 1
                    continue
                sim.check(g2 != got, "seed-ignored", lambda: "%s gives the same result for seeds %d and %d: %s" % (name, s, s2, str(got)[:700]), "ignored:" + name)

    def client(ci, ops):
        def run():
            for n, op in enumerate(ops):
                sim.event("op", op["op"])
                if n >= 7:
                    sim.probe("many-calls")
                if op["op"] in ("draw", "reseed"):
                    disturb(op, sim)
                elif op["op"] == "fail":
                    sim.probe("call-failed-between")
                    for f in (lambda: sample_from_wavefunction(state(2, 1), 0, 5), lambda: G.generate_random_regular_graph(3, 5, sampler(1), 5)):
                        try:
                            f()
                            sim.violate("accepted", "invalid request")
                        except Exception:
                            pass
                else:
                    name, s, k = pool[op["i"] % len(pool)]
                    sim.stats[name] += 1
                    record(name, s, k, evaluate(name, s, k), ci)
        return run

    sim.run_tasks([("c%d" % i, client(i, ops)) for i, ops in enumerate(sc["clients"])])
    # every operation of the pool once more, in the opposite order, whatever state the generators are in now
    for name, s, k in reversed(pool):
        record(name, s, k, evaluate(name, s, k), -1)
    if sc.get("fresh"):
        sim.probe("fresh-process")
        env = dict(os.environ, PYTHONHASHSEED=str(sc["fresh"]))
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        out = subprocess.run([sys.executable, os.path.join(here, "fresh13.py"), json.dumps(pool), str(sc["fresh"])], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        if out.returncode:
            raise RuntimeError(out.stderr.decode()[-2000:])
        for (name, s, k), got in zip(pool, json.loads(out.stdout.decode().splitlines()[-1])):
            record(name, s, k, got, -2)


def hash_of(x):
    import hashlib
    return hashlib.blake2b(json.dumps(x).encode(), digest_size=6).hexdigest()
