"""C12: an ansatz circuit always reflects the current ansatz settings."""
import copy
import pickle

import numpy as np
import sympy
from overrides import overrides

from artifacts import brief
from kernel import InjectedError
from zquantum.core.circuits import CNOT, CZ, RX, RY, RZ, Circuit, natural_key
from zquantum.core.interfaces.ansatz import Ansatz
from zquantum.core.interfaces.ansatz_utils import ansatz_property, combine_ansatz_params, invalidates_parametrized_circuit
from zquantum.core.interfaces.mock_objects import MockAnsatz

ID = "C12"
RUNS = {"quick": 5000, "thorough": 250000}
RULE = ("each run: 1-3 interleaved clients, each owning 1-2 ansatzes of four classes (parametrized or not, own sort keys, inherited properties and defaults) plus one shared read-only one; histories of property writes, declared "
        "invalidating methods (some reading the circuit half-way), circuit/parameter/executable reads, copies, with failures inside generation, methods and setters; non-trivial = a failure or a client switch happened")
REAL = ["Ansatz base class", "ansatz_property", "invalidates_parametrized_circuit on methods and properties", "Circuit.bind", "symbol sort keys", "MockAnsatz"]
STUB = ["circuit generation of three scripted ansatz classes (yields, fails on request)", "client scheduling"]
ASSUMPTIONS = ["no client changes the settings of an ansatz while another client is inside a call on the same ansatz", "settings change only through declared properties and declared methods"]
PROBES = ["generate-failed", "method-failed", "setter-failed", "interrupted", "cached-read", "read-inside-method", "executable", "wrong-length", "none-params", "no-parametrized", "copied", "default-setting", "more-than-ten",
          "shared-read", "concurrent-generation", "retry", "setting-changed-in-place", "symbols-renamed"]


class Interrupt(BaseException):
    """Stands for KeyboardInterrupt."""


FAIL = {"error": InjectedError, "interrupt": Interrupt, "value": ValueError}


class Scripted:
    """Failure points of one ansatz; reached through the instance, never copied with it."""

    def __init__(self, sim):
        self.sim = sim
        self.next_fail = None  # (where, kind)
        self.depth = 0

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_current_script, ())

    def point(self, where):
        self.sim.event(where)
        if self.next_fail and self.next_fail[0] == where:
            kind = self.next_fail[1]
            self.next_fail = None
            self.sim.fault("%s@%s" % (kind, where))
            raise FAIL[kind](where)


_SCRIPT = [None]


def _current_script():
    return _SCRIPT[0]


GATES = {"CZ": CZ, "CNOT": CNOT, "none": None}


def build(s, params, script=None):
    """The circuit for settings s: symbols, or the given parameters in the class's order."""
    ops = []
    names = []
    for l in range(s["number_of_layers"]):
        names += [("gamma", l), ("theta", l)]
    order = sorted(names, key=lambda x: (x[0], x[1]) if s["family"] == "natural" else (x[1], x[0]))
    if params is None:
        val = {n: sympy.Symbol("%s%s_%d" % ((s["label"],) + n)) for n in names}
    else:
        val = dict(zip(order, params))
    for l in range(s["number_of_layers"]):
        if script and l == s["number_of_layers"] // 2:
            script.point("generate")
        for q in range(s["size"]):
            ops.append(RX(val["theta", l])(q))
        ops.append(RZ(val["gamma", l])(0))
        if s["angle"]:
            ops.append(RY(s["angle"])(s["size"] - 1))
        if GATES[s["entangler"]]:
            for q in range(s["size"] - 1):
                ops.append(GATES[s["entangler"]](q, q + 1))
    if s["family"] == "natural" and s["offset"]:
        ops.append(RX(s["offset"])(0))
    for q in s["marks"]:
        ops.append(RX(0.5)(q % s["size"]))
    if script and s["number_of_layers"] == 0:
        script.point("generate")
    return Circuit(ops, n_qubits=s["size"])


class Layered(Ansatz):
    supports_parametrized_circuits = True
    size = ansatz_property("size")
    angle = ansatz_property("angle", 0.25)
    family = "layered"
    offset = 0

    def __init__(self, script, number_of_layers, size):
        super().__init__(number_of_layers)
        self.script = script
        self.size = size
        self._ent = "CZ"
        self.marks = []

    @property
    def number_of_qubits(self):
        return self.size

    def _get_entangler(self):
        return self._ent

    def _set_entangler(self, v):
        if v not in GATES:
            raise ValueError(v)
        self.script.point("setter-before")
        self._ent = v
        self.script.point("setter-after")

    entangler = invalidates_parametrized_circuit(property(_get_entangler, _set_entangler))

    @invalidates_parametrized_circuit
    def grow(self, k):
        self.script.point("method-before")
        self._number_of_layers += k
        self.script.point("method-after")
        return ("grown", k)

    @invalidates_parametrized_circuit
    def reshape(self, layers, size, peek=False):
        self._number_of_layers = layers
        if peek:
            self.script.sim.probe("read-inside-method")
            self.parametrized_circuit if self.supports_parametrized_circuits else None
        self.script.point("method-middle")
        self._size = size
        return size

    @invalidates_parametrized_circuit
    def twice(self, k):
        """A declared method made of declared methods and properties."""
        self.grow(k)
        self.angle = 1.5
        if self.supports_parametrized_circuits:
            self.parametrized_circuit
        self._size += 1
        self.script.point("method-after")
        return self

    marks = ansatz_property("marks")
    label = ansatz_property("label", "")

    def settings(self):
        return dict(marks=list(self.marks), label=self.label, family=self.family, number_of_layers=self.number_of_layers, size=self.size, angle=self.angle, entangler=self.entangler, offset=self.offset)

    @overrides
    def _generate_circuit(self, params=None):
        s = self.settings()
        self.script.depth += 1
        if self.script.depth > 1:
            self.script.sim.probe("concurrent-generation")
        try:
            return build(s, params, self.script)
        finally:
            self.script.depth -= 1


class Natural(Layered):
    """Own sort key, an inherited property with another default, an extra property."""
    angle = ansatz_property("angle", 0.75)
    offset = ansatz_property("offset", 0)
    family = "natural"

    @property
    def symbols_sort_key(self):
        return natural_key


class Direct(Layered):
    supports_parametrized_circuits = False
    family = "direct"

    @property
    def number_of_params(self):
        return 2 * self.number_of_layers


class Mock(MockAnsatz):
    family = "mock"


CLASSES = dict(layered=Layered, natural=Natural, direct=Direct, mock=Mock)


def mock_build(s, params):
    ops = []
    for l in range(s["number_of_layers"]):
        v = sympy.Symbol("theta_%d" % l) if params is None else params[l]
        ops += [RX(v)(q) for q in range(s["size"])]
    return Circuit(ops)


def generate(rng, tier):
    clients = []
    for c in range(rng.choice([1, 1, 2, 3])):
        objs = [dict(cls=rng.choice(["layered", "layered", "natural", "natural", "direct", "mock"]), layers=rng.choice([0, 1, 1, 2, 3, 6]), size=rng.randrange(1, 4)) for _ in range(rng.choice([1, 2]))]
        ops = []
        for _ in range(rng.choice([3, 6, 12, 20])):
            x = rng.random()
            o = dict(a=rng.randrange(3))
            if x < 0.2:
                o.update(op="set", what=rng.choice(["number_of_layers", "size", "angle", "entangler", "offset", "marks", "marks", "label"]), how=rng.choice(["add", "replace", "again"]), v=rng.randrange(6), fail=rng.choice([None, None, None, "setter-before", "setter-after"]))
            elif x < 0.35:
                o.update(op="call", what=rng.choice(["grow", "reshape", "reshape", "twice"]), v=rng.randrange(4), w=rng.randrange(1, 4), peek=rng.random() < 0.5,
                         fail=rng.choice([None, None, "method-before", "method-middle", "method-after"]))
            elif x < 0.6:
                o.update(op="read", fail=rng.choice([None, None, None, "generate"]), retry=rng.random() < 0.5)
            elif x < 0.7:
                o.update(op="count", fail=rng.choice([None, None, "generate"]))
            elif x < 0.9:
                o.update(op="exec", seed=rng.randrange(10 ** 6), fail=rng.choice([None, None, None, "generate", "length", "none"]), retry=rng.random() < 0.5)
            elif x < 0.95:
                o.update(op="copy", how=rng.choice(["deep", "shallow", "pickle"]))
            else:
                o.update(op="bad", v=rng.choice(["XX", None, 7]))
            o["kind"] = rng.choice(["error", "error", "interrupt", "value"])
            ops.append(o)
        clients.append(dict(objs=objs, ops=ops))
    return dict(shared=dict(cls=rng.choice(["layered", "natural", "direct"]), layers=rng.choice([1, 2]), size=2), clients=clients,
                sched=[rng.randrange(3) if rng.random() < 0.5 else 0 for _ in range(rng.choice([0, 40, 100]))])


def execute(sim, sc):
    _SCRIPT[0] = Scripted(sim)

    def make(spec):
        m = dict(family=spec["cls"], number_of_layers=spec["layers"], size=spec["size"], marks=[], label="", angle={"natural": 0.75}.get(spec["cls"], 0.25), entangler="CZ", offset=0)
        if spec["cls"] == "mock":
            return [Mock(spec["layers"], spec["size"]), m, None]
        script = Scripted(sim)
        return [CLASSES[spec["cls"]](script, spec["layers"], spec["size"]), m, script]

    shared = make(sc["shared"])
    held = []  # circuits handed out, with what they were

    def want(m, params=None):
        return mock_build(m, params) if m["family"] == "mock" else build(m, params)

    def settings_of(a):
        if isinstance(a, Mock):
            return dict(number_of_layers=a.number_of_layers, size=a.problem_size)
        return a.settings()

    def same_settings(a, m, what):
        got = settings_of(a)
        sim.check(all(got[k] == m[k] for k in got), "settings-differ", lambda: "after %s the settings read %s, expected %s" % (what, got, m), "settings")

    def n_params(m):
        return m["number_of_layers"] * (1 if m["family"] == "mock" else 2)

    def check_circuit(c, m, params, what):
        w = want(m, params)
        if params is not None and m["family"] != "direct":
            w = Circuit(w.operations, n_qubits=w.n_qubits)
        sim.check(c == w, "stale-circuit" if params is None else "executable-differs", lambda: "%s with settings %s gives %s, a fresh ansatz %s" % (what, m, c, w), "circuit" if params is None else "executable")
        if m["number_of_layers"] > 10:
            sim.probe("more-than-ten")
        held.append((c, list(c.operations), c.n_qubits))

    def client(ci, spec):
        def run():
            mine = [make(o) for o in spec["objs"]]
            for op in spec["ops"]:
                sim.event("op", op["op"])
                k = op["a"] % (len(mine) + 1)
                if op["op"] in ("read", "count", "exec") and k == len(mine):
                    sim.probe("shared-read")
                    step(op, shared, mine)
                else:
                    step(op, mine[k % len(mine)], mine)
            for a, m, script in mine:
                same_settings(a, m, "the history")
                if m["family"] != "direct":
                    check_circuit(a.parametrized_circuit, m, None, "the final circuit")
        return run

    def arm(op, obj):
        script = obj[2]
        # the shared ansatz is never told to fail: another client might run into it
        if script is None or obj is shared or op.get("fail") in (None, "length", "none"):
            return False
        script.next_fail = (op["fail"], op["kind"])
        return True

    def attempt(op, obj, f):
        """(result, injected error or None); disarms what was not reached."""
        armed = arm(op, obj)
        before = sim.faults.total() if hasattr(sim.faults, "total") else sum(sim.faults.values())
        try:
            return f(), None
        except (InjectedError, Interrupt) as e:
            sim.probe("interrupted" if isinstance(e, Interrupt) else "generate-failed" if str(e) == "generate" else "setter-failed" if str(e).startswith("setter") else "method-failed")
            return None, e
        except ValueError as e:
            if not armed or obj[2].next_fail is not None:
                raise
            return None, e
        finally:
            if armed:
                obj[2].next_fail = None

    def step(op, obj, mine):
        a, m, script = obj
        sim.stats[op["op"]] += 1
        what = op["op"]
        if what == "set":
            name, v = op["what"], op["v"]
            if m["family"] == "mock":
                name = "size" if name not in ("number_of_layers", "size") else name
                v = v if name == "number_of_layers" else v % 3 + 1
                setattr(a, "problem_size" if name == "size" else name, v)
                m[name] = v
                return same_settings(a, m, "setting " + name)
            if name == "offset" and m["family"] != "natural":
                name = "angle"
            if name == "size":
                v = v % 3 + 1
            elif name in ("angle", "offset"):
                v = v * 0.125
            elif name == "entangler":
                v = ["CZ", "CNOT", "none"][v % 3]
            elif name == "label":
                v = ["", "b_", "x9_", "theta_"][v % 4]
                sim.probe("symbols-renamed")
            elif name == "marks":
                # a setting that is a list: assigned anew, extended in place and assigned, or changed and assigned again
                if op["how"] == "add":
                    def change():
                        a.marks += [v]
                elif op["how"] == "again":
                    def change():
                        x = a.marks
                        x.append(v)
                        a.marks = x
                else:
                    def change():
                        a.marks = [v]
                change()
                sim.probe("setting-changed-in-place")
                m["marks"] = [v] if op["how"] == "replace" else m["marks"] + [v]
                return same_settings(a, m, "setting marks")
            _, err = attempt(op, obj, lambda: setattr(a, name, v))
            if err is None or "after" in str(err):
                m[name] = v
            same_settings(a, m, "setting " + name)
        elif what == "bad":
            if m["family"] == "mock":
                return
            try:
                a.entangler = op["v"]
                sim.violate("accepted", "entangler %s" % op["v"])
            except ValueError:
                pass
            same_settings(a, m, "a rejected write")
        elif what == "call":
            if m["family"] == "mock":
                return
            name = op["what"]
            if name == "grow":
                got, err = attempt(op, obj, lambda: a.grow(op["v"]))
                if err is None or str(err) == "method-after":
                    m["number_of_layers"] += op["v"]
                res = ("grown", op["v"])
            elif name == "reshape":
                got, err = attempt(op, obj, lambda: a.reshape(op["v"], op["w"], peek=op["peek"]))
                m["number_of_layers"] = op["v"]
                if err is None:
                    m["size"] = op["w"]
                res = op["w"]
            else:
                got, err = attempt(op, obj, lambda: a.twice(op["v"]))
                res = a
                if err is None:
                    m["number_of_layers"] += op["v"]
                    m["angle"] = 1.5
                    m["size"] += 1
                elif str(err) == "method-after":  # failed inside grow
                    m["number_of_layers"] += op["v"]
            if err is None:
                sim.check(got is res or got == res, "method-result", lambda: "%s returns %s" % (name, brief(got)), "method-result")
            same_settings(a, m, name)
        elif what == "read":
            for _ in range(2):
                if m["family"] == "direct":
                    sim.probe("no-parametrized")
                    try:
                        c = a.parametrized_circuit
                        sim.violate("parametrized-from-direct", str(c))
                    except NotImplementedError:
                        return
                c, err = attempt(op, obj, lambda: a.parametrized_circuit)
                if err is None:
                    check_circuit(c, m, None, "parametrized_circuit")
                    if a.parametrized_circuit is c:
                        sim.probe("cached-read")
                    if a.parametrized_circuit != c:
                        sim.violate("unstable-circuit", "two reads in a row differ")
                    return
                same_settings(a, m, "a failed read")
                if not op["retry"]:
                    return
                sim.probe("retry")
                op = dict(op, fail=None)
        elif what == "count":
            n, err = attempt(op, obj, lambda: a.number_of_params)
            if err is None:
                sim.check(n == n_params(m), "param-count", lambda: "number_of_params gives %s, expected %d (%s)" % (n, n_params(m), m), "param-count")
            sim.check(a.number_of_qubits == m["size"], "qubit-count", lambda: "number_of_qubits %s, expected %s" % (a.number_of_qubits, m["size"]), "qubit-count")
            if not isinstance(a, Mock) and a.angle in (0.25, 0.75):
                sim.probe("default-setting")
        elif what == "exec":
            r = np.random.RandomState(op["seed"])
            p = np.round(r.uniform(-3, 3, n_params(m)), 3)
            if op["fail"] == "none":
                sim.probe("none-params")
                try:
                    a.get_executable_circuit(None)
                    sim.violate("none-accepted", "")
                except Exception:
                    return
            if op["fail"] == "length":
                if m["family"] == "direct":
                    return
                sim.probe("wrong-length")
                try:
                    c = a.get_executable_circuit(np.append(p, 0.5))
                    sim.violate("wrong-length-accepted", str(c))
                except ValueError:
                    pass
                return same_settings(a, m, "rejected parameters")
            old, err = (None, True) if m["family"] == "direct" else attempt(dict(op, fail=None), obj, lambda: a.parametrized_circuit) if op["seed"] % 2 else (None, True)
            for _ in range(2):
                keep = p.copy()
                c, err2 = attempt(op, obj, lambda: a.get_executable_circuit(p))
                sim.check(np.array_equal(p, keep), "params-changed", lambda: "%s became %s" % (keep, p), "params-changed")
                same_settings(a, m, "reading an executable circuit")
                if err2 is None:
                    sim.probe("executable")
                    check_circuit(c, m, list(keep), "get_executable_circuit")
                    if err is None:
                        sim.check(a.parametrized_circuit == want(m), "parametrized-changed", lambda: "reading an executable circuit changed the parametrized one to %s" % a.parametrized_circuit, "parametrized-changed")
                    p += 1.0  # the caller's array is its own again
                    return
                if not op["retry"]:
                    return
                sim.probe("retry")
                op = dict(op, fail=None)
        elif what == "copy":
            if len(mine) >= 5:
                return
            sim.probe("copied")
            _SCRIPT[0] = Scripted(sim)
            b = copy.copy(a) if op["how"] == "shallow" else copy.deepcopy(a) if op["how"] == "deep" else pickle.loads(pickle.dumps(a))
            s2 = None
            if script is not None:
                s2 = b.script = Scripted(sim)
            if op["how"] == "shallow" and "marks" in m:
                b.marks = list(m["marks"])  # else the copies share the list
            mine.append([b, dict(m), s2])

    crashed = sim.run_tasks([("c%d" % i, client(i, s)) for i, s in enumerate(sc["clients"])])
    for c, ops, n in held:
        sim.check(len(c.operations) == len(ops) and all(x == y for x, y in zip(c.operations, ops)) and c.n_qubits == n, "circuit-changed", lambda: "a circuit handed out earlier became %s" % c, "circuit-changed")
    p1, p2 = np.array([1.0, 2.0]), np.array([3.0])
    sim.check(list(combine_ansatz_params(p1, p2)) == [1.0, 2.0, 3.0] and list(p1) == [1.0, 2.0], "combine", "", "combine")
