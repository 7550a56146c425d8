"""C14: every sampling request yields exactly the samples asked for."""
import collections
import random

import numpy as np
import sympy

import advrng
import artifacts as A
import stubs
from kernel import Patches
from zquantum.core.distribution import MeasurementOutcomeDistribution
from zquantum.core.measurement import Measurements, get_parities_from_measurements, sample_from_wavefunction
from zquantum.core.openfermion import IsingOperator
from zquantum.core.symbolic_simulator import SymbolicSimulator
from zquantum.core.utils import sample_from_probability_distribution
from zquantum.core.wavefunction import Wavefunction

ID = "C14"
USES_DISK = True
RUNS = {"quick": 4000, "thorough": 150000}
RULE = ("each run: 1-3 interleaved clients drawing histories of sampling requests (states, distributions, circuits, exact representations) under a random generator that returns chosen admissible outcomes "
        "(first, last, least likely, repeated, boundary), and of accumulating, counting, saving and reloading own or shared measurements; non-trivial = a chosen draw or a client switch happened")
REAL = ["sample_from_wavefunction", "sample_from_probability_distribution", "SymbolicSimulator", "Measurements", "MeasurementOutcomeDistribution", "QuantumBackend distributions"]
STUB = ["outcomes of numpy's random generators", "client scheduling", "file system (simulated device over a scratch directory)"]
ASSUMPTIONS = ["distributions passed in are normalized within the library's own tolerance", "at least one sample is requested"]
PROBES = ["state", "state-zero-amplitudes", "state-bound", "state-edge-norm", "seeded", "distribution", "circuit", "circuit-set", "backend-distribution", "represent-short", "represent-surplus", "represent-exact", "represent-tie",
          "represent-few", "accumulate", "shared-accumulate", "reload", "reload-while-growing", "parities", "same-list", "rejected", "large-n", "wide"]


def generate(rng, tier):
    clients = []
    wide = rng.choice([0, 0, 0, 1, 8, 52, 62, 75])
    for c in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([2, 4, 7, 12])):
            x = rng.random()
            o = dict(seed=rng.randrange(10 ** 6), n=rng.choice([1, 1, 2, 3, 5, 8, 17, 40] * 6 + [400, 3000]))
            if x < 0.15:
                o.update(op="state", w=rng.randrange(1, 4), kind=rng.choice(["plain", "zeros", "tiny", "edge", "bound"]), s=rng.choice([None, None, 0, 7]))
            elif x < 0.25:
                o.update(op="dist", keys=rng.choice(["tuple", "str", "int"]), wide=wide, kind=rng.choice(["plain", "zeros", "tiny", "equal"]), k=rng.randrange(1, 7))
            elif x < 0.4:
                o.update(op="circuit", how=rng.choice(["one", "set", "dist", "bits"]), s=rng.choice([None, 0, 3]))
            elif x < 0.65:
                o.update(op="represent", wide=wide, kind=rng.choice(["plain", "tie", "equal", "tiny", "exact", "zeros", "edge"]), k=rng.randrange(1, 9), n=rng.choice([1, 2, 3, 4, 5, 7, 9, 10, 33, 100, 1000, 99999]))
            elif x < 0.7:
                o.update(op="reject", how=rng.randrange(4))
            else:
                o.update(op="acc", wide=wide, what=rng.choice(["counts", "counts", "extend", "get", "distribution", "reload", "reload", "parities", "new", "same-list"]), shared=rng.random() < 0.35)
            ops.append(o)
        clients.append(ops)
    return dict(clients=clients, modes=[rng.choice(advrng.MODES) for _ in range(rng.choice([1, 1, 2, 5]))], sched=[rng.randrange(3) if rng.random() < 0.5 else 0 for _ in range(rng.choice([0, 30, 80]))])


def probs(kind, k, r, n):
    if kind == "equal":
        return [1.0 / k] * k
    if kind in ("tie", "exact"):
        parts = [r.randrange(0, 2 * n + 1) for _ in range(k - 1)]
        cuts = [0] + sorted(parts) + [2 * n]
        if kind == "exact":
            cuts = [2 * (c // 2) for c in cuts]
        return [(b - a) / (2 * n) for a, b in zip(cuts, cuts[1:])]
    v = [r.random() for _ in range(k)]
    if kind == "tiny":
        v = [x * 10 ** -r.randrange(0, 14) for x in v]
    if kind == "zeros":
        v = [x if r.random() < 0.5 else 0.0 for x in v]
    if not sum(v) > 0:
        v[r.randrange(k)] = 1.0
    t = sum(v)
    v = [x / t for x in v]
    if kind == "edge":
        v[v.index(max(v))] *= 1 + r.choice([4e-10, -4e-10])
    return v


def make_state(op):
    r = random.Random(op["seed"])
    w, kind = op["w"], op["kind"]
    n = 2 ** w
    v = [complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(n)]
    if kind == "zeros":
        v = [x if r.random() < 0.4 else 0 for x in v]
    if kind == "tiny":
        v = [x * 10 ** -r.randrange(0, 7) for x in v]
    if not any(v):
        v[r.randrange(n)] = 1
    v = np.array(v, dtype=complex)
    v /= np.linalg.norm(v)
    if kind == "edge":
        v *= 1 + r.choice([3e-6, -3e-6, 2e-8, -2e-8])
    if kind == "bound":
        syms = sympy.symbols("a0:%d" % n)
        return Wavefunction(sympy.Matrix(syms)).bind({s: complex(x) for s, x in zip(syms, v)}), v
    return Wavefunction(v), v


def execute(sim, sc):
    adv = advrng.Adversary(sim, sc["modes"])
    patches = Patches()
    adv.install(patches)
    patches.rebind()
    try:
        run(sim, sc)
    finally:
        patches.undo()


def run(sim, sc):
    shared = [Measurements(), []]  # object and the shots it must hold, in order

    def check_shots(shots, n, width, possible, what):
        sim.check(len(shots) == n, "sample-count", lambda: "%s: %d samples asked for, %d given" % (what, n, len(shots)), "count:" + what.split()[0])
        for s in shots:
            sim.check(isinstance(s, tuple) and len(s) == width and all(int(b) == b and b in (0, 1) for b in s), "bad-shot", lambda: "%s: shot %s, width %d" % (what, s, width), "shot:" + what.split()[0])
            sim.check(possible(s), "impossible-shot", lambda: "%s: shot %s has zero probability" % (what, s), "impossible:" + what.split()[0])
        if n >= 33:
            sim.probe("large-n")

    def index(s):
        return int("".join(str(int(b)) for b in s), 2)

    def check_derived(m, shots, what):
        """Counts and distribution account for exactly these shots."""
        want = collections.Counter("".join(str(int(b)) for b in s) for s in shots)
        got = m.get_counts()
        sim.check(dict(got) == dict(want), "counts-differ", lambda: "%s: counts %s, shots give %s" % (what, got, dict(want)), "counts")
        if shots:
            d = m.get_distribution().distribution_dict
            w2 = collections.Counter(tuple(int(b) for b in s) for s in shots)
            sim.check(set(d) == set(w2) and all(abs(d[k] - c / len(shots)) < 1e-9 for k, c in w2.items()), "distribution-differs", lambda: "%s: distribution %s, shots give %s" % (what, d, dict(w2)), "distribution")

    def client(ci, ops):
        own = [Measurements(), []]

        def go():
            for j, op in enumerate(ops):
                sim.event("op", op["op"])
                sim.stats[op["op"]] += 1
                globals()["do_" + op["op"]](sim, op, own, shared, "c%d-%d" % (ci, j), check_shots, check_derived, index)
            check_derived(own[0], own[1], "own measurements")
        return go

    sim.run_tasks([("c%d" % i, client(i, ops)) for i, ops in enumerate(sc["clients"])])
    check_derived(shared[0], shared[1], "shared measurements")
    sim.check(sorted(map(tuple, shared[0].bitstrings)) == sorted(shared[1]), "shots-differ", "the shared measurements hold other shots than were added", "shots")


def do_state(sim, op, own, shared, tag, check_shots, check_derived, index):
    wf, v = make_state(op)
    sim.probe("state")
    sim.probe({"zeros": "state-zero-amplitudes", "bound": "state-bound", "edge": "state-edge-norm"}.get(op["kind"], "state"))
    if op["s"] is not None:
        sim.probe("seeded")
    before = np.array(wf.amplitudes, dtype=complex).ravel().copy()
    shots = sample_from_wavefunction(wf, op["n"], op["s"])
    sim.check(np.array_equal(np.array(wf.amplitudes, dtype=complex).ravel(), before), "state-changed", "sampling changed the state", "state-changed")
    check_shots(shots, op["n"], op["w"], lambda s: abs(v[index(s)]) > 0, "state %s n=%d" % (np.round(v, 4), op["n"]))
    m = Measurements(shots)
    check_derived(m, shots, "sampled state")


def widen(r, op, keys):
    """More qubits: shots that differ in some of the first three and the last one."""
    w = op.get("wide", 0)
    if not w:
        return keys
    pre = tuple(r.randrange(2) for _ in range(w))
    where = r.randrange(3)
    return [k[:where] + pre + k[where:] for k in keys]


def do_dist(sim, op, own, shared, tag, check_shots, check_derived, index):
    sim.probe("distribution")
    r = random.Random(op["seed"])
    p = probs(op["kind"], op["k"], r, op["n"])
    keys = widen(r, op, [(i // 4, i // 2 % 2, i % 2) for i in range(op["k"])])
    keys = {"tuple": keys, "str": ["".join(map(str, k)) for k in keys], "int": list(range(op["k"]))}[op["keys"]]
    d = dict(zip(keys, p))
    items = list(d.items())
    got = sample_from_probability_distribution(d, op["n"])
    sim.check(list(d.items()) == items, "distribution-changed", "sampling changed the distribution", "dist-changed")
    sim.check(sum(got.values()) == op["n"] and all(c > 0 and int(c) == c for c in got.values()), "sample-count", lambda: "%d samples of %s asked for, got %s" % (op["n"], d, dict(got)), "count:dist")
    sim.check(all(k in d and d[k] > 0 for k in got), "impossible-shot", lambda: "sampling %s gave %s" % (d, dict(got)), "impossible:dist")


def do_circuit(sim, op, own, shared, tag, check_shots, check_derived, index):
    sim.probe("circuit")
    cs = [stubs.n_circuit(op["seed"] + i, 3, 5, 1) for i in range(3)]
    exact = []
    for c in cs:
        state = np.zeros(8, dtype=complex)
        state[0] = 1
        for o in c.operations:
            state = o.apply(state)
        exact.append(state)
    b = SymbolicSimulator(seed=op["s"])
    if op["how"] == "one":
        m = b.run_circuit_and_measure(cs[0], op["n"])
        check_shots(m.bitstrings, op["n"], 3, lambda s: abs(exact[0][index(s)]) > 0, "circuit %s n=%d" % (cs[0], op["n"]))
        check_derived(m, m.bitstrings, "circuit")
    elif op["how"] == "set":
        sim.probe("circuit-set")
        ns = [op["n"], 1 + op["n"] // 2, 2 * op["n"]]
        ms = b.run_circuitset_and_measure(cs, ns)
        sim.check(len(ms) == 3, "result-count", "", "result-count")
        for c, e, n, m in zip(cs, exact, ns, ms):
            check_shots(m.bitstrings, n, 3, lambda s: abs(e[index(s)]) > 0, "circuitset %s n=%d" % (c, n))
            check_derived(m, m.bitstrings, "circuit set")
    else:
        sim.probe("backend-distribution")
        d = (b.get_measurement_outcome_distribution if op["how"] == "dist" else b.get_bitstring_distribution)(cs[0], op["n"]).distribution_dict
        c = {tuple(int(x) for x in k): v * op["n"] for k, v in d.items()}
        sim.check(all(abs(x - round(x)) < 1e-6 and x > 0.5 for x in c.values()) and round(sum(c.values())) == op["n"] and len(c) == len(d), "distribution-count", lambda: "%d samples, distribution %s" % (op["n"], d), "count:distribution")
        check_shots([k for k, v in c.items() for _ in range(round(v))], op["n"], 3, lambda s: abs(exact[0][index(s)]) > 0, "distribution n=%d" % op["n"])


def do_represent(sim, op, own, shared, tag, check_shots, check_derived, index):
    r = random.Random(op["seed"])
    n = op["n"] if not op.get("wide") else min(op["n"], 1000)
    p = probs(op["kind"], op["k"], r, n)
    if op["kind"] == "edge":
        p = [x for x in p]
    keys = widen(r, op, [(i // 4, i // 2 % 2, i % 2) for i in range(op["k"])])
    r.shuffle(keys)
    dist = MeasurementOutcomeDistribution(dict(zip(keys, p)))
    items = list(dist.distribution_dict.items())
    m = Measurements.get_measurements_representing_distribution(dist, n)
    sim.check(list(dist.distribution_dict.items()) == items, "distribution-changed", lambda: "representing %s changed it" % items, "dist-changed")
    share = {k: v * n for k, v in items}
    check_shots(m.bitstrings, n, 3 + op.get("wide", 0), lambda s: share.get(s, 0) > 0, "represent %s n=%d" % (items, n))
    got = collections.Counter(m.bitstrings)
    sim.check(all(abs(got[k] - s) < 1 + 1e-6 for k, s in share.items()), "share-differs", lambda: "%d measurements of %s: counts %s" % (n, items, dict(got)), "share")
    if all(abs(s - round(s)) < 1e-9 for s in share.values()):
        sim.probe("represent-exact")
        sim.check(all(got[k] == round(s) for k, s in share.items()), "share-differs", lambda: "%d measurements of %s: counts %s" % (n, items, dict(got)), "share-exact")
    total = sum(round(s) for s in share.values())
    if total < n:
        sim.probe("represent-short")
    elif total > n:
        sim.probe("represent-surplus")
    if any(abs(s % 1 - 0.5) < 1e-9 for s in share.values()):
        sim.probe("represent-tie")
    if n < op["k"]:
        sim.probe("represent-few")
    check_derived(m, m.bitstrings, "representing measurements")


def do_reject(sim, op, own, shared, tag, check_shots, check_derived, index):
    sim.probe("rejected")
    f = [lambda: sample_from_wavefunction(Wavefunction.zero_state(2), 0), lambda: sample_from_wavefunction(Wavefunction.zero_state(2), -op["n"]), lambda: SymbolicSimulator().run_circuit_and_measure(stubs.n_circuit(1, 2, 3, 1), 0),
         lambda: sample_from_probability_distribution([0.5, 0.5], 3)][op["how"]]
    try:
        got = f()
    except (ValueError, RuntimeError):
        return
    sim.violate("accepted", "an invalid request gave %s" % A.brief(got), "accepted")


def do_acc(sim, op, own, shared, tag, check_shots, check_derived, index):
    r = random.Random(op["seed"])
    which = shared if op["shared"] else own
    m, shots = which
    sim.probe("shared-accumulate" if op["shared"] else "accumulate")
    what = op["what"]
    some = widen(r, dict(op), [tuple(r.randrange(2) for _ in range(3)) for _ in range(min(op["n"], 9))])
    if op.get("wide"):
        sim.probe("wide")
    if what == "counts":
        counts = dict(collections.Counter("".join(map(str, s)) for s in some))
        keep = list(counts.items())
        m.add_counts(counts)
        sim.check(list(counts.items()) == keep, "counts-changed", "add_counts changed its argument", "counts-changed")
        for k, c in keep:
            shots += [tuple(map(int, k))] * c
    elif what == "extend":
        m.bitstrings += some
        shots += some
    elif what == "get":
        check_derived(m, shots, "accumulated measurements")
    elif what == "distribution":
        if shots:
            d = m.get_distribution()
            d.distribution_dict.clear()
            check_derived(m, shots, "accumulated measurements")
    elif what == "reload":
        before = list(shots)
        m.save(tag + ".json")
        got = Measurements.load_from_file(tag + ".json").bitstrings
        sim.probe("reload")
        if len(shots) > len(before):
            sim.probe("reload-while-growing")
        want = shots[:len(got)]
        sim.check(len(before) <= len(got) <= len(shots) and sorted(map(tuple, got)) == sorted(want), "reload-differs", lambda: "saved with %d..%d shots, loaded %s, expected %s" % (len(before), len(shots), A.brief(got), A.brief(want)), "reload")
        if not op["shared"]:
            own[0] = Measurements(got)
    elif what == "parities":
        if shots:
            sim.probe("parities")
            op1 = IsingOperator("Z0") + IsingOperator("Z1 Z2") + IsingOperator("Z0 Z2")
            p = get_parities_from_measurements(list(m.bitstrings), op1)
            n = len(shots)
            want = []
            for qs in ((0,), (1, 2), (0, 2)):
                even = sum(1 for s in shots if sum(s[q] for q in qs) % 2 == 0)
                want.append([even, n - even])
            sim.check(np.array_equal(np.asarray(p.values), np.array(want)) and all(abs(x - n) < 1e-9 for x in np.asarray(p.correlations[0]).sum(axis=2).ravel()), "parities-differ", lambda: "shots %s: parities %s, expected %s" % (
                A.brief(shots), p.values.tolist(), want), "parities")
    elif what == "new":
        counts = dict(collections.Counter("".join(map(str, s)) for s in some))
        own[0] = Measurements.from_counts(counts)
        own[1] = [tuple(map(int, k)) for k, c in counts.items() for _ in range(c)]
        check_derived(own[0], own[1], "from_counts")
    elif what == "same-list":
        sim.probe("same-list")
        mine = list(some)
        a, b = Measurements(mine), Measurements(mine)
        ones = (1,) * (3 + op.get("wide", 0))
        a.add_counts({"".join(map(str, ones)): 2})
        check_derived(a, some + [ones] * 2, "measurements of a list")
        check_derived(b, some, "other measurements of the same list")
        sim.check(mine == some, "list-changed", "adding counts changed the caller's list of shots", "list-changed")
    if not op["shared"]:
        sim.check(sorted(map(tuple, own[0].bitstrings)) == sorted(own[1]), "shots-differ", lambda: "after %s the measurements hold %s, expected %s" % (what, A.brief(own[0].bitstrings), A.brief(own[1])), "shots")
