"""C05: measurement tracking records every measurement, once, in order."""
import json
import random

import artifacts as A
import stubs
from amnesia import process_death
from disk import no_faults
from disk import ERRORS, draw_frac
from kernel import InjectedError, Violation, describe_exc
from zquantum.core.circuits import circuit_from_dict
from zquantum.core.measurement import Measurements
from zquantum.core.symbolic_simulator import SymbolicSimulator
from zquantum.core.trackers import MeasurementTrackingBackend

ID = "C05"
USES_DISK = True
RUNS = {"quick": 6400, "thorough": 120000}
RULE = ("each run: 1-3 interleaved clients each owning 1-2 trackers on separate files over private or shared inner backends, 1-2 epochs, histories of single, set and "
        "distribution calls with failing backend calls, failing or short raw-data writes and crashes; non-trivial = a failure, crash or client switch happened")
REAL = ["MeasurementTrackingBackend", "QuantumBackend base class", "SymbolicSimulator (some runs)", "json", "Python text and buffer layers"]
STUB = ["inner backend execution (scripted results and failures)", "device under the raw-data file", "client scheduling"]
ASSUMPTIONS = ["a circuit is measured through the tracker when the wrapped backend's call returned its result; a wrapped set call that raised measured nothing through the tracker"]
PROBES = ["several-calls", "after-failed-write", "after-backend-failure", "set-call", "distribution-call", "bitstrings", "shared-inner", "interleaved", "second-epoch", "short-shots", "short-lived-circuits"]


def generate(rng, tier):
    nclients = rng.choice([1, 1, 2, 3])
    shared = rng.random() < 0.3
    inners = [dict(kind=rng.choice(["plain", "plain", "batch", "sim", "symbolic"]), seed=rng.randrange(1000), batch=rng.choice([1, 2, 3, 5]), skew=rng.choice([0, 0, -1, 2]),
                   fail=sorted(rng.sample(range(14), rng.choice([0, 0, 1, 3])))) for _ in range(1 if shared else nclients)]
    epochs = []
    big = rng.random() < 0.02
    for _ in range(rng.choice([1, 1, 2])):
        clients = []
        for c in range(nclients):
            ops = []
            for _ in range(rng.choice([1, 2, 3, 5, 8]) * (8 if big else 1)):
                op = dict(op=rng.choice(["single", "single", "set", "set", "dist", "bdist"]), fresh=rng.choice([0, 0, 1 + rng.randrange(99)]), t=rng.randrange(2), mutate=rng.random() < 0.3)
                if op["op"] == "set":
                    op["items"] = [[rng.randrange(4), rng.choice([1, 2, 5])] for _ in range(rng.choice([0, 1, 2, 3, 6]) * (4 if big else 1))]
                else:
                    op["items"] = [[rng.randrange(4), rng.choice([1, 2, 5, 9])]]
                if rng.random() < 0.2:
                    op["fault"] = dict(on=rng.choice(["open", "write", "write", "close"]), nth=rng.choice([0, 0, 0, 1, 3]), kind=rng.choice(ERRORS + ["crash"] * 4),
                                       frac=draw_frac(rng))
                ops.append(op)
            clients.append(ops)
        epochs.append(clients)
    return dict(inners=inners, shared=shared, trackers=[[dict(bits=rng.random() < 0.4) for _ in range(2)] for _ in range(nclients)], circuits=[rng.randrange(10 ** 6) for _ in range(4)],
                epochs=epochs, sched=[rng.randrange(3) if rng.random() < 0.5 else 0 for _ in range(rng.choice([0, 80, 200]))],
                config=dict(write_chunk=rng.choice([None, None, 1 + rng.randrange(40)]), bufsize=rng.choice([None, None, 32, 256])))


def make_inner(sim, spec):
    if spec["kind"] == "plain":
        return stubs.StubBackend(sim, spec["seed"], spec["fail"], spec["skew"])
    if spec["kind"] == "batch":
        return stubs.StubBatchBackend(sim, spec["seed"], spec["fail"], spec["skew"], spec["batch"])
    if spec["kind"] == "sim":
        return stubs.StubSimulator(sim, spec["seed"], spec["fail"])
    return SymbolicSimulator(seed=spec["seed"])


def counts_of(bits):
    out = {}
    for b in bits:
        k = "".join(map(str, b))
        out[k] = out.get(k, 0) + 1
    return out


def execute(sim, sc):
    disk = sim.disk
    circuits = [stubs.n_circuit(s, 1 + s % 3) for s in sc["circuits"]]
    circuit_fps = [A.fp(c) for c in circuits]
    for e, clients in enumerate(sc["epochs"]):
        if e:
            sim.probe("second-epoch")
        inners = [make_inner(sim, s) for s in sc["inners"]]
        if sc["shared"]:
            sim.probe("shared-inner")
        state = {}  # file -> dict(tracker, model, dirty)
        calls = {}

        def client(c, ops):
            def run():
                inner = inners[0 if sc["shared"] else c]
                mine = {}
                for op in ops:
                    sim.stats[op["op"]] += 1
                    spec = sc["trackers"][c][op["t"]]
                    name = "raw-%d-%d.json" % (c, op["t"])
                    if name not in mine:
                        spy = type(type(inner).__name__, (Spy,), {})(inner)
                        mine[name] = MeasurementTrackingBackend(spy, disk.path(name), record_bitstrings=spec["bits"]), spy
                        state[name] = dict(model=[], current=False, bits=spec["bits"], n=0, inner=type(inner).__name__)
                    (tr, spy), st = mine[name], state[name]
                    was = st["current"]
                    st["current"] = False  # from here to the end of the call the file is in flux
                    if op.get("fresh"):
                        # circuits that exist for this call only: the next ones may get their addresses
                        items = [stubs.n_circuit(sc["circuits"][i] + op["fresh"], 1 + i % 3) for i, n in op["items"]]
                        items = [(x, n, A.fp(x)) for x, (i, n) in zip(items, op["items"])]
                        sim.probe("short-lived-circuits")
                    else:
                        items = [(circuits[i], n, circuit_fps[i]) for i, n in op["items"]]
                    spy.reset()
                    disk.arm([op["fault"]] if op.get("fault") else ())
                    got = err = None
                    try:
                        if op["op"] == "single":
                            got = tr.run_circuit_and_measure(items[0][0], items[0][1])
                        elif op["op"] == "set":
                            got = tr.run_circuitset_and_measure([x[0] for x in items], [x[1] for x in items])
                        elif op["op"] == "dist":
                            got = tr.get_measurement_outcome_distribution(items[0][0], items[0][1])
                        else:
                            got = tr.get_bitstring_distribution(items[0][0], items[0][1])
                    except Exception as x:
                        err = x
                    fired = sim.current.local.pop("fired", [])
                    disk.disarm()
                    # ---- what the wrapped backend did
                    if spy.error is not None:
                        sim.check(err is spy.error, "backend-error-changed", lambda: "wrapped backend raised %r, tracker %s" % (spy.error, "raised %r" % err if err else "returned"), "error-changed")
                        sim.probe("after-backend-failure")
                        # nothing new was measured; the file was not touched or says the same
                        if was and not fired:
                            st["current"] = True
                            verify(sim, disk, name, st, "after a failed backend call")
                        continue
                    sim.check(spy.calls == 1, "wrapped-calls", lambda: "%s through the tracker called the wrapped backend %d times (%s)" % (op["op"], spy.calls, describe_exc(err) if err else "returned"), "calls")
                    st["model"] += spy.records(items)
                    if err is not None:
                        if not fired:
                            raise Violation("tracker-failed", "fault-free %s raised %s" % (op["op"], describe_exc(err)), "tracker-failed")
                        st["failed"] = True
                        continue
                    sim.check(A.same(fpr(got), spy.fp), "result-changed", lambda: "wrapped backend returned %s, tracker returned %s" % (A.brief(spy.fp), A.brief(fpr(got))), "result-changed")
                    st["n"] += 1
                    if st["n"] > 1:
                        sim.probe("several-calls")
                    if st.pop("failed", False):
                        sim.probe("after-failed-write")
                    sim.probe("set-call" if op["op"] == "set" else "distribution-call" if "dist" in op["op"] else "single-call")
                    if st["bits"]:
                        sim.probe("bitstrings")
                    st["current"] = True
                    if op["mutate"]:
                        for m in got if isinstance(got, list) else [got]:
                            if isinstance(m, Measurements):
                                m.bitstrings.append((1,) * 5)  # the result belongs to the caller
                    verify(sim, disk, name, st, "after a %s call" % op["op"])
            return run

        class Spy:
            """Passes everything to the inner backend, remembering the outcome of the call."""

            def __init__(self, inner):
                self.__dict__["inner"] = inner
                self.reset()

            def reset(self):
                self.__dict__.update(calls=0, error=None, fp=None, kind=None)

            def __getattr__(self, k):
                v = getattr(self.inner, k)
                if k in ("run_circuit_and_measure", "run_circuitset_and_measure", "get_measurement_outcome_distribution", "get_bitstring_distribution"):
                    def call(*a, **kw):
                        self.__dict__["calls"] += 1
                        try:
                            r = v(*a, **kw)
                        except Exception as x:
                            self.__dict__["error"] = x
                            raise
                        self.__dict__.update(kind=k, fp=fpr(r), rep=repr(r))
                        return r
                    return call
                return v

            def records(self, items):
                if self.kind == "run_circuit_and_measure":
                    meas = [self.fp]
                elif self.kind == "run_circuitset_and_measure":
                    meas = self.fp
                    if len(meas) != len(items):
                        raise Violation("wrapped-call-differs", "%d circuits, %d results" % (len(items), len(meas)), "set-length")
                else:
                    return [dict(circuit=items[0][2], distribution=self.rep, gates=len(items[0][0].operations), shots=items[0][1], kind=self.kind)]
                for m, it in zip(meas, items):
                    if len(m[1]) != it[1]:
                        sim.probe("short-shots")
                return [dict(circuit=it[2], bits=[list(b) for b in m[1]], gates=len(it[0].operations), kind="run") for m, it in zip(meas, items)]

        crashed = sim.run_tasks([("c%d" % c, client(c, ops)) for c, ops in enumerate(clients)])
        process_death()
        if sim.switches:
            sim.probe("interleaved")
        for name in sorted(state):
            if state[name]["current"]:
                verify(sim, disk, name, state[name], "after %s" % ("a crash" if crashed else "the clients ended"))


def fpr(r):
    if isinstance(r, (list, tuple)) and not hasattr(r, "_asdict"):
        return [A.fp(x) for x in r]
    return A.fp(r)


def verify(sim, disk, name, st, what):
    raw = disk.raw_read(name)
    try:
        data = json.loads(raw.decode())
        recs = data["raw-data"]
    except Exception as x:
        raise Violation("raw-data-unreadable", "%s %s: %s %r" % (what, name, describe_exc(x), (raw or b"")[-200:]), "unreadable")
    want = st["model"]
    sim.check(len(recs) == len(want), "record-count", lambda: "%s: %s holds %d records, %d measurements were made through the tracker" % (what, name, len(recs), len(want)), "record-count")
    for i, (r, w) in enumerate(zip(recs, want)):
        bad = []
        try:
            cfp = A.fp(circuit_from_dict(r["circuit"]))
        except Exception as x:
            cfp = describe_exc(x)
        if not A.same(cfp, w["circuit"]):
            bad.append("circuit")
        if r.get("number_of_gates") != w["gates"]:
            bad.append("number_of_gates")
        if w["kind"] == "run":
            if r.get("counts") != counts_of(w["bits"]):
                bad.append("counts")
            if r.get("number_of_shots") != len(w["bits"]):
                bad.append("number_of_shots")
            if st["bits"]:
                if r.get("bitstrings") != w["bits"]:
                    bad.append("bitstrings")
            elif "bitstrings" in r:
                bad.append("bitstrings not requested")
        else:
            if r.get("distribution") != w["distribution"]:
                bad.append("distribution")
            if r.get("number_of_shots") != w["shots"]:
                bad.append("number_of_shots")
        if r.get("device") != st["inner"]:
            bad.append("device")
        sim.check(not bad, "record-differs", lambda: "%s: record %d of %s has wrong %s: %s, expected %s" % (what, i, name, ", ".join(bad), A.brief(r, 900), A.brief(w, 600)), "record:" + ",".join(bad))
