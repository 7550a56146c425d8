"""Every artifact kind the library can save: generator, save, load, comparison.

Content is a pure function of (kind, content seed, size).  `fp` turns an object into
plain comparable data; two objects are equal when their fingerprints are equal, with
floating-point numbers compared exactly, or as exactly as the kind of artifact allows.
"""
import collections
import datetime
import decimal
import enum
import fractions
import io
import json
import math
import os
import pathlib
import random
import warnings

import networkx as nx
import numpy as np
import sympy
from scipy.optimize import OptimizeResult

from zquantum.core import graph as zgraph
from zquantum.core import measurement as zmeas
from zquantum.core import serialization as zser
from zquantum.core import utils as zutils
from zquantum.core import circuits as zc
from zquantum.core.circuits import layouts as zlay
from zquantum.core import distribution as zdist
from zquantum.core import openfermion as zof
from zquantum.core.history.recorder import HistoryEntry, HistoryEntryWithArtifacts
from zquantum.core.openfermion.utils import operator_utils as zou
from zquantum.core.openfermion import FermionOperator, InteractionOperator, InteractionRDM, IsingOperator, QubitOperator
from zquantum.core.wavefunction import Wavefunction


# ---------------------------------------------------------------- fingerprint
Colour = enum.Enum("Colour", "red green")
ODD_TYPES = (set, frozenset, bytearray, fractions.Fraction, decimal.Decimal, range, collections.deque, datetime.date, datetime.datetime, pathlib.PurePosixPath, Colour,
             type(Ellipsis), type(len), slice)


def num(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        return x.real if x.imag == 0 else x
    if isinstance(x, sympy.Expr):
        if x.is_number:
            c = complex(x)
            return c.real if c.imag == 0 else c
        return ("sym", x)
    return x


_SYMBOLS = {}


def sx(e):
    """Exact plain image of a sympy expression; unlike srepr it is the same for equal copies."""
    if isinstance(e, sympy.Symbol):
        if e not in _SYMBOLS:
            _SYMBOLS[e] = "%s %s" % (e.name, sorted(e.assumptions0.items()))
        return _SYMBOLS[e]
    if not e.args:
        return sympy.srepr(e)
    return (type(e).__name__,) + tuple(sx(a) if isinstance(a, sympy.Basic) else repr(a) for a in e.args)


def fp(o):
    """Plain-data fingerprint."""
    if isinstance(o, zutils.ValueEstimate):
        return ("ve", float(o), fp(o.precision))
    if o is None or isinstance(o, (str, bytes)):
        return o
    if isinstance(o, (bool, int, float, complex, np.generic, sympy.Expr)):
        return num(o)
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return num(o.item())
    if isinstance(o, np.ndarray):
        return ("arr", o.shape, [num(x) for x in o.ravel().tolist()])
    if isinstance(o, tuple) and hasattr(o, "_asdict"):
        return (type(o).__name__, [(k, fp(v)) for k, v in o._asdict().items()])
    if isinstance(o, (list, tuple)):
        return [fp(x) for x in o]
    if isinstance(o, zdist.MeasurementOutcomeDistribution):
        return ("dist", {str(k): fp(v) for k, v in o.distribution_dict.items()})
    if isinstance(o, OptimizeResult):
        return ("opt", {k: fp(v) for k, v in o.items()})
    if isinstance(o, dict):
        return {str(k): fp(v) for k, v in o.items()}
    if isinstance(o, zc.Circuit):
        return ("circuit", o.n_qubits, [fp(x) for x in o.operations])
    if isinstance(o, zc.GateOperation):
        return ("op", gate_fp(o.gate), list(map(int, o.qubit_indices)))
    if isinstance(o, (QubitOperator, IsingOperator, FermionOperator)):
        return (type(o).__name__, {str(k): num(v) for k, v in o.terms.items()})
    if isinstance(o, InteractionOperator):
        return ("iop", num(o.constant), fp(o.one_body_tensor), fp(o.two_body_tensor))
    if isinstance(o, InteractionRDM):
        return ("irdm", fp(o.one_body_tensor), fp(o.two_body_tensor))
    if isinstance(o, nx.Graph):
        ends = (lambda a, b: [str(a), str(b)]) if o.is_directed() else (lambda a, b: sorted([str(a), str(b)]))
        return ("graph", o.is_directed(), o.is_multigraph(), fp(dict(o.graph)), {str(n): fp(dict(d)) for n, d in o.nodes(data=True)},
                sorted(([ends(a, b), fp(dict(d))] for a, b, d in o.edges(data=True)), key=repr))
    if isinstance(o, zmeas.Measurements):
        return ("meas", [tuple(map(int, b)) for b in o.bitstrings])
    if isinstance(o, zmeas.ExpectationValues):
        return ("ev", fp(o.values), fp(o.correlations), fp(o.estimator_covariances))
    if isinstance(o, zmeas.Parities):
        return ("par", fp(o.values), fp(o.correlations))
    if isinstance(o, Wavefunction):
        return ("wf", fp(np.array(o.amplitudes)))
    if isinstance(o, zlay.CircuitLayers):
        return ("layers", [[list(map(int, g)) for g in l] for l in o.layers])
    if isinstance(o, zlay.CircuitConnectivity):
        return ("conn", [list(map(int, g)) for g in o.connectivity])
    if type(o) in ODD_TYPES:
        return ("other", type(o).__name__, repr(sorted(o, key=repr)) if isinstance(o, (set, frozenset)) else repr(o))
    raise TypeError("no fingerprint for %r" % type(o))


class Exact(float):
    """A number that is kept to the last digit but one, whatever is allowed for the rest of the artifact."""


def gate_fp(g):
    name = type(g).__name__
    if name in ("ControlledGate",):
        return ("ctrl", g.num_control_qubits, gate_fp(g.wrapped_gate))
    if name in ("Dagger",):
        return ("dag", gate_fp(g.wrapped_gate))
    extra = None
    mf = getattr(g, "matrix_factory", None)
    definition = getattr(mf, "gate_definition", None)
    if definition is not None:
        extra = ("custom", [[num(sympy.sympify(x)) for x in definition.matrix.row(i)] for i in range(definition.matrix.shape[0])],
                 [str(s) for s in definition.params_ordering])
    return ("gate", g.name, [Exact(p) if isinstance(p, float) else fp(p) for p in g.params], extra)


REL = 1e-12


def same(a, b, rel=REL):
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, (bool, int)) and isinstance(b, (bool, int)) and bool(a) == bool(b)
    if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
        if a == b:
            return True
        if isinstance(a, Exact) or isinstance(b, Exact):
            rel = min(rel, 4e-16)
        try:
            return abs(a - b) <= rel * max(abs(a), abs(b))
        except OverflowError:
            return False
    if isinstance(a, tuple) and len(a) == 2 and a[0] == "sym" and isinstance(b, tuple) and len(b) == 2 and b[0] == "sym":
        x, y = a[1], b[1]
        if x == y:
            return True
        if sorted(map(str, x.free_symbols)) != sorted(map(str, y.free_symbols)) or not x.free_symbols == y.free_symbols:
            return False
        try:
            pts = {s: 0.37 + 0.11 * i for i, s in enumerate(sorted(x.free_symbols, key=str))}
            return abs(complex(x.subs(pts)) - complex(y.subs(pts))) < 1e-10
        except Exception:
            return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rel) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], rel) for k in a)
    return type(a) == type(b) and a == b


def brief(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


# ---------------------------------------------------------------- generators
def fl(r):
    k = r.randrange(12)
    if k == 0:
        return 0.0
    if k == 1:
        return float(r.randrange(-3, 4))
    if k == 2:
        return r.choice([1e-300, 1e300, -1e-17, 5e-324, 123456789.123456789, 0.1, 1 / 3])
    return r.uniform(-2, 2)


def cx(r):
    return complex(fl(r), fl(r))


def g_array(r, n):
    nd = r.choice([1, 1, 2, 3 if n < 10 else 2, 0])
    shape = tuple(r.randrange(1, 2 + n) for _ in range(nd))
    size = int(np.prod(shape)) if shape else 1
    kind = r.choice("fciifcfcb")
    if r.random() < 0.05:
        return np.array([]) if r.random() < 0.5 else np.zeros((1 + n, 0))
    if kind == "b":
        v = [r.random() < 0.5 for _ in range(size)]
    elif kind == "f":
        v = [fl(r) for _ in range(size)]
    elif kind == "c":
        v = [cx(r) for _ in range(size)]
    else:
        v = [r.choice([r.randrange(-10, 10), 2 ** 53 + 1, -2 ** 62]) if r.random() < 0.1 else r.randrange(-10, 10) for _ in range(size)]
    a = np.array(v).reshape(shape)
    x = r.random()
    if x < 0.05:
        return np.asfortranarray(a)
    if x < 0.1 and nd:
        return a[::2]
    if x < 0.15 and kind in "fc":
        with np.errstate(all="ignore"):
            b = a.astype(np.float32 if kind == "f" else np.complex64)
        return b if np.isfinite(b).all() else a
    return a


SYMS = ["theta", "theta_0", "alpha", "x[3]", "x[0]", "gamma", "beta", "lambda_1", "N", "S", "zeta", "phi", "x", "lambda", "E", "O", "\u00b5", "theta.1", "x[1][0]", "\u03b8_1"]


def g_param(r, symbolic=True):
    k = r.randrange(6)
    if symbolic and k == 0:
        return sympy.Symbol(r.choice(SYMS))
    if symbolic and k == 1:
        a, b = sympy.Symbol(r.choice(SYMS)), sympy.Symbol(r.choice(SYMS))
        return r.choice([a + b, 2 * a, a * b - 1, a / 2 + sympy.pi, sympy.cos(a) + b, -a, a - b, a ** 2 / 3, sympy.exp(a), sympy.sin(a) * sympy.tan(b), sympy.sqrt(a) + sympy.pi ** 2, a / (b + 2)])
    if symbolic and k == 2:
        return r.choice([sympy.pi / r.randrange(1, 8), sympy.pi / r.randrange(1, 8), sympy.Rational(r.randrange(-9, 9), 7), sympy.sqrt(2), sympy.Float(r.uniform(-3, 3))])
    if k == 3:
        return r.randrange(-3, 4)
    return r.uniform(-6, 6)


ONE_Q = ["X", "Y", "Z", "H", "I", "S", "T"]
ONE_P = ["RX", "RY", "RZ", "PHASE", "RH"]
TWO_Q = ["CNOT", "CZ", "SWAP", "ISWAP"]
TWO_P = ["CPHASE", "XX", "YY", "ZZ", "XY"]


def g_gate(r, customs, symbolic=True):
    k = r.randrange(10)
    if k < 3:
        g = getattr(zc, r.choice(ONE_Q))
    elif k < 5:
        g = getattr(zc, r.choice(ONE_P))(g_param(r, symbolic))
    elif k == 5:
        g = getattr(zc, r.choice(TWO_Q))
    elif k == 6:
        g = getattr(zc, r.choice(TWO_P))(g_param(r, symbolic))
    elif k == 7:
        g = zc.U3(g_param(r, symbolic), g_param(r, symbolic), g_param(r, symbolic))
    elif k == 8 and customs:
        d = r.choice(customs)
        g = d(*[g_param(r, symbolic) for _ in d.params_ordering])
    else:
        g = zc.MS(g_param(r, symbolic), g_param(r, symbolic)) if hasattr(zc, "MS") else zc.CNOT
    if r.random() < 0.15:
        g = g.dagger
    if r.random() < 0.15:
        g = g.controlled(r.randrange(1, 3))
    return g


def g_customs(r):
    out = []
    if r.random() < 0.5:
        out.append(zc.CustomGateDefinition(r.choice(["cg_a"] * 5 + ["X", "H", "Control", "Dagger", "Callable"]), sympy.Matrix(r.choice([[[-1, 0], [0, 1]], [[1, 0], [0, -1]], [[0, 1], [1, 0]], [[0, -sympy.I], [sympy.I, 0]]])), ()))
    if r.random() < 0.5:
        s1, s2 = r.sample(SYMS, 2)
        a, b = sympy.Symbol(s1), sympy.Symbol(s2)
        out.append(zc.CustomGateDefinition(r.choice(["cg_b"] * 5 + ["RX", "PHASE", "np"]), sympy.Matrix([[sympy.exp(sympy.I * a), 0], [0, sympy.exp(r.choice([-1, -1, 1, 2]) * sympy.I * b)]]), (a, b)))
    return out


def g_clash(g, customs):
    """A built-in gate named like one of the circuit's custom gates (saving both is refused)."""
    while hasattr(g, "wrapped_gate"):
        g = g.wrapped_gate
    return g.name in [d.gate_name for d in customs] and not hasattr(g.matrix_factory, "gate_definition")


def g_circuit(r, n, symbolic=True):
    customs = g_customs(r)
    ops = []
    for _ in range(r.randrange(0, 2 + 2 * n)):
        g = g_gate(r, customs, symbolic)
        while g_clash(g, customs):
            g = g_gate(r, customs, symbolic)
        width = max(g.num_qubits, 1 + n)
        ops.append(g(*r.sample(range(max(width, 3)), g.num_qubits)))
    used = max([max(o.qubit_indices) for o in ops] + [-1]) + 1
    if r.random() < 0.3:
        return zc.Circuit(ops, n_qubits=used + r.randrange(1, 3))
    return zc.Circuit(ops)


def g_coeff(r):
    return fl(r) if r.random() < 0.6 else cx(r)


def g_qop(r, n, cls=QubitOperator, letters="XYZ", coeff=g_coeff):
    op = cls()
    for _ in range(r.randrange(0, 2 + n)):
        qs = sorted(r.sample(range(4 + n), r.randrange(0, 4)))
        op += cls(tuple((q, r.choice(letters)) for q in qs), coeff(r))
    return op


def g_fop(r, n, coeff=g_coeff):
    op = FermionOperator()
    for _ in range(r.randrange(0, 2 + n)):
        op += FermionOperator(tuple((r.randrange(5), r.randrange(2)) for _ in range(r.randrange(0, 4))), coeff(r))
    return op


def g_tensor(r, shape, c):
    return np.array([cx(r) if c else fl(r) for _ in range(int(np.prod(shape)))]).reshape(shape)


def g_iop(r, n):
    m = r.randrange(1, 2 + min(n, 2))
    c = r.random() < 0.4
    return InteractionOperator(cx(r) if c else fl(r), g_tensor(r, (m, m), c), g_tensor(r, (m,) * 4, c))


def g_irdm(r, n):
    m = r.randrange(1, 2 + min(n, 2))
    c = r.random() < 0.4
    return InteractionRDM(g_tensor(r, (m, m), c), g_tensor(r, (m,) * 4, c))


def g_graph(r, n):
    g = r.choice([nx.Graph] * 12 + [nx.DiGraph] * 2 + [nx.MultiGraph, nx.MultiDiGraph])()
    style = r.choice([0] * 6 + [1] * 3 + [2])
    names = [[i, "v%d" % i, (i // 2, i % 2)][style] for i in range(r.randrange(1, 4 + n))]
    if r.random() < 0.1:
        g.graph["name"] = "G"
    for v in names:
        g.add_node(v)
        if r.random() < 0.2:
            g.nodes[v]["colour"] = r.choice(["red", "é", 3])
    for a in names:
        for b in names:
            if (a != b or r.random() < 0.1) and r.random() < 0.4:
                if r.random() < 0.7:
                    g.add_edge(a, b, weight=fl(r))
                else:
                    g.add_edge(a, b)
    return g


def g_meas(r, n):
    w = r.randrange(1, 2 + n)
    return zmeas.Measurements([tuple(r.randrange(2) for _ in range(w)) for _ in range(r.randrange(0, 4 + 6 * n))])


def g_ev(r, n):
    k = r.randrange(1, 2 + n)
    c = r.random() < 0.3
    vals = g_tensor(r, (k,), c)
    frames = r.randrange(1, 3)
    corr = [g_tensor(r, (k, k), False) for _ in range(frames)] if r.random() < 0.6 else None
    cov = [g_tensor(r, (k, k), False) for _ in range(frames)] if r.random() < 0.6 else None
    return zmeas.ExpectationValues(vals, corr, cov)


def g_par(r, n):
    k = r.randrange(1, 2 + n)
    vals = np.array([[r.randrange(50), r.randrange(50)] for _ in range(k)])
    corr = [np.array([r.randrange(50) for _ in range(k * k * 2)]).reshape((k, k, 2))] if r.random() < 0.5 else None
    return zmeas.Parities(vals, corr)


def g_wf(r, n):
    q = r.randrange(1, 2 + (min(n, 3) if n < 10 else 8))
    v = np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) * (r.random() < 0.8) for _ in range(2 ** q)])
    if not np.any(v):
        v[0] = 1
    return Wavefunction(v / np.linalg.norm(v))


def g_dist(r, n):
    w = r.randrange(1, 2 + n)
    levels = 2 if r.random() < 0.8 else r.choice([3, 10, 14, 120])
    keys = set(tuple(r.randrange(levels) for _ in range(w)) for _ in range(r.randrange(1, 4 + n)))
    keys = sorted(keys)
    vals = [r.random() + 1e-3 for _ in keys]
    s = sum(vals)
    return zdist.MeasurementOutcomeDistribution({k: v / s for k, v in zip(keys, vals)})


def g_ve(r, n):
    return zutils.ValueEstimate(fl(r), None if r.random() < 0.4 else abs(fl(r)))


def g_json(r, n, depth=0):
    k = r.randrange(8 if depth < 2 else 5)
    if k == 0:
        return None
    if k == 1:
        return r.choice([True, False])
    if k == 2:
        return r.choice([r.randrange(-1000, 1000), r.randrange(-1000, 1000), 2 ** 53 + 1, -10 ** 25]) if r.random() < 0.2 else r.randrange(-1000, 1000)
    if k == 3:
        return fl(r)
    if k == 4:
        return r.choice(["", "abc", "zażółć", "quote\" \\ \n tab\t", "0,1", "\u2028", "日本"])
    if k in (5, 6):
        return [g_json(r, n, depth + 1) for _ in range(r.randrange(0, 2 + n))]
    return {"k%d" % i: g_json(r, n, depth + 1) for i in range(r.randrange(0, 2 + n))}


def g_list(r, n):
    return [g_json(r, n, 1) for _ in range(r.randrange(0, 3 + n))]


def g_dict(r, n):
    return {"key%d" % i: g_json(r, n, 1) for i in range(r.randrange(0, 3 + n))}


def g_opt(r, n):
    def params():
        return np.array([fl(r) for _ in range(1 + r.randrange(3))])

    def val():
        return g_ve(r, n) if r.random() < 0.4 else fl(r)

    def entry(i):
        if r.random() < 0.5:
            art = {}
            if r.random() < 0.5:
                art["note"] = "text %d" % i
            if r.random() < 0.4:
                art["arr"] = params()
            if r.random() < 0.4:
                art["dist"] = g_dist(r, n)
            if r.random() < 0.4:
                art["loss"] = fl(r)
            if r.random() < 0.15:
                art["per-term"] = {g_name(r): fl(r) for _ in range(r.randrange(0, 3))}
            return HistoryEntryWithArtifacts(i, params(), val(), art)
        return HistoryEntry(i, params(), val())

    d = dict(opt_value=val(), opt_params=params(), nit=r.randrange(10), nfev=r.randrange(100),
             history=[entry(i) for i in range(r.randrange(0, 2 + n))])
    if r.random() < 0.4:
        d["gradient_history"] = [HistoryEntry(i, params(), params()) for i in range(r.randrange(0, 2 + n))]
    if r.random() < 0.2:
        d["settings"] = {g_name(r): r.choice([fl(r), r.randrange(100), True, None, "text", [1, 2.5]]) for _ in range(r.randrange(0, 4))}
    if r.random() < 0.15:
        d["inner"] = [OptimizeResult(opt_value=val(), opt_params=params(), history=[entry(i) for i in range(r.randrange(0, 2))]) for _ in range(r.randrange(0, 3))]
    return OptimizeResult(d)


def g_name(r):
    """Keys that cannot be mistaken for measurement outcomes."""
    return r.choice(["loss", "n", "tol1", "a,b", "-", "x0", "step size", "1.5", "0x1", "e", " ", "1,a"])


def g_layers(r, n):
    return zlay.CircuitLayers([[tuple(r.sample(range(6), r.randrange(2, 4))) for _ in range(r.randrange(0, 3))] for _ in range(r.randrange(0, 2 + n))])


def g_conn(r, n):
    return zlay.CircuitConnectivity([tuple(r.sample(range(8), 2)) for _ in range(r.randrange(0, 3 + n))])


def g_order(r, n):
    x = list(range(r.randrange(0, 4 + n)))
    r.shuffle(x)
    if x and r.random() < 0.15:
        x += [r.choice(x), r.choice(x) + 7]   # nothing says that it is a permutation
    return x


def g_nmeas(r, n):
    return (abs(fl(r)), r.randrange(20), None if r.random() < 0.2 else np.array([abs(fl(r)) for _ in range(1 + r.randrange(3 + n))]))


def g_grid(r, n):
    return [{"value": g_ve(r, n), "parameter1": {"layer_index": r.randrange(3), "parameter_index": r.randrange(3), "parameter_value": fl(r)}}
            for _ in range(r.randrange(0, 2 + n))]


def make_noise(data):
    """Target of saved noise models (created by name on load)."""
    return {"noise": data}


def json_load(f):
    with zser.ensure_open(f) as h:
        return json.load(h)


def g_quirk(kind, seed):
    """Artifacts known not to come back as they were (see known_findings.json); drawn by C01 only."""
    r = random.Random(seed)
    if kind == "distribution":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return zdist.MeasurementOutcomeDistribution({(i,): r.uniform(0.01, 0.2) for i in range(3)}, normalize=False)
    if kind == "optimization_results":
        counts = {format(i, "02b"): r.randrange(1, 50) for i in range(1 + r.randrange(4))}
        return OptimizeResult(opt_value=fl(r), opt_params=np.array([fl(r)]), history=[HistoryEntryWithArtifacts(0, np.array([fl(r)]), fl(r), {"counts": counts})])
    return np.zeros((0, 1 + r.randrange(4)))


def odd_value(r):
    """Something JSON has no notation for; the last ones it has."""
    return r.choice([lambda: np.int64(r.randrange(100)), lambda: np.float32(r.random()), lambda: np.bool_(True), lambda: np.arange(r.randrange(1, 4)), lambda: cx(r),
                     lambda: np.array([cx(r)]), lambda: np.complex128(cx(r)), lambda: {1, 2}, lambda: frozenset(["a"]), lambda: b"bytes", lambda: bytearray(b"x"),
                     lambda: fractions.Fraction(r.randrange(1, 9), 7), lambda: decimal.Decimal("0.1"), lambda: sympy.Symbol(r.choice(SYMS)), lambda: sympy.pi / 3,
                     lambda: sympy.Integer(3), lambda: range(3), lambda: collections.deque([1, 2]), lambda: datetime.date(2020, 1, 2), lambda: pathlib.PurePosixPath("a/b"),
                     lambda: Colour.red, lambda: ..., lambda: len, lambda: np.array(2.5), lambda: np.uint64(2 ** 63), lambda: np.array(["a", "b"]),
                     lambda: g_meas(r, 1), lambda: g_qop(r, 1), lambda: zc.Circuit([zc.X(0)]), lambda: {(0, 1): 2.0, "a": 1}, lambda: {np.int64(1): "x"},
                     lambda: (1, (fl(r),)), lambda: math.inf, lambda: -math.inf])()


def plant(r, tree, v):
    """The tree with v somewhere in it."""
    if isinstance(tree, list) and tree and r.random() < 0.6:
        i = r.randrange(len(tree))
        return tree[:i] + [plant(r, tree[i], v)] + tree[i + 1:]
    if isinstance(tree, list):
        i = r.randrange(len(tree) + 1)
        return tree[:i] + [v] + tree[i:]
    if isinstance(tree, dict):
        if tree and r.random() < 0.6:
            k = r.choice(sorted(tree))
            return {**tree, k: plant(r, tree[k], v)}
        return {**tree, "odd key": v}
    return v


ODD = ("list", "dict", "noise_model", "timing", "graph", "optimization_results")


def g_odd(kind, seed, size):
    """An artifact with something in it that may have no form in its file format."""
    r = random.Random("odd/%s" % seed)
    if kind == "timing":
        return odd_value(r)
    o = K[kind].make(seed, size)
    if kind == "graph":
        g = o if o.number_of_nodes() else nx.path_graph(2)
        if r.random() < 0.5 and g.number_of_edges():
            g.edges[r.choice(list(g.edges))]["weight"] = odd_value(r)
        else:
            g.nodes[r.choice(list(g.nodes))]["data"] = odd_value(r)
        return g
    if kind == "optimization_results":
        v = odd_value(r)
        if r.random() < 0.5:
            o["settings"] = plant(r, {"tolerance": 0.5}, v)
        else:
            o["history"] = list(o["history"]) + [HistoryEntryWithArtifacts(9, np.array([fl(r)]), fl(r), plant(r, {"note": "x", "values": [1, 2]}, v))]
        return o
    return plant(r, o, odd_value(r))


QUIRKS = {"distribution": "unnormalised", "array": "no-rows", "optimization_results": "outcome-keys"}
BIG = 60


def enlarge(rng, sc, ops):
    """Now and then some of the artifacts of a scenario are big (up to a few 100 kB); the device then takes more at once."""
    if rng.random() < 0.02:
        for o in ops:
            if rng.random() < 0.5:
                o["size"] = BIG
        sc["config"] = dict(sc["config"], write_chunk=rng.choice([None, 512, 4096, 30000]), read_chunk=rng.choice([None, 1000]), bufsize=rng.choice([None, 4096, 512]))
    return sc


# ------------------------------------------------------------------- kinds
class Kind:
    def __init__(self, name, gen, save, load, expect=None, got=None, save_stream=False, load_stream=True, path_load="str", suffix=".json",
                 binary=False, load_pathlike=False):
        self.name = name
        self.gen = gen
        self.save = save
        self.load = load
        self.expect = expect or fp  # object -> fingerprint expected back
        self.got = got or fp
        self.save_stream = save_stream
        self.load_stream = load_stream
        self.load_pathlike = load_pathlike
        self.suffix = suffix

    def make(self, seed, size):
        return self.gen(random.Random("%s/%s" % (self.name, seed)), size)


def _sd(obj):
    d = dict(obj)
    return d


def save_op(plain):
    def s(o, path):
        d, b = os.path.split(os.fspath(path))
        zou.save_operator(o, b[:-5] if b.endswith(".data") else b, data_directory=d, allow_overwrite=True, plain_text=plain)
    return s


def load_op(plain):
    def l(path):
        d, b = os.path.split(os.fspath(path))
        return zou.load_operator(b[:-5] if b.endswith(".data") else b, data_directory=d, plain_text=plain)
    return l


def g_anyop(r, n):
    return g_qop(r, n) if r.random() < 0.5 else g_fop(r, n)


def text_coeff(r):
    return r.choice([0.5, 1.5, -2.0, 3.25, 0.125, complex(0.5, 1.5), complex(-1.0, 2.0), 1e-3, 12345.678] + [1 / 3, complex(0.0, -1.0), 1e-20, 1e20, complex(-1e-9, 1e-12), 2e-8, 3])


def g_textop(r, n):
    if r.random() < 0.5:
        return g_qop(r, n, coeff=text_coeff)
    return g_fop(r, n, coeff=text_coeff)


K = {}


def kind(*a, **k):
    x = Kind(*a, **k)
    K[x.name] = x


kind("circuit", g_circuit, zc.save_circuit, zc.load_circuit, save_stream=True, load_pathlike=True)
kind("circuitset", lambda r, n: [g_circuit(r, n) for _ in range(r.randrange(0, 2 + min(n, 2)))], zc.save_circuitset, zc.load_circuitset,
     save_stream=True, load_pathlike=True)
kind("qubit_operator", g_qop, zof.save_qubit_operator, zof.load_qubit_operator)
kind("qubit_operator_set", lambda r, n: [g_qop(r, n) for _ in range(r.randrange(0, 3))], zof.save_qubit_operator_set, zof.load_qubit_operator_set)
kind("ising_operator", lambda r, n: g_qop(r, n, IsingOperator, "Z"), zof.save_ising_operator, zof.load_ising_operator)
kind("interaction_operator", g_iop, zof.save_interaction_operator, zof.load_interaction_operator)
kind("interaction_rdm", g_irdm, zof.save_interaction_rdm, zof.load_interaction_rdm)
kind("graph", g_graph, zgraph.save_graph, zgraph.load_graph, save_stream=True, load_pathlike=True)
kind("measurements", g_meas, lambda o, p: o.save(p), zmeas.Measurements.load_from_file)
kind("expectation_values", g_ev, zmeas.save_expectation_values, zmeas.load_expectation_values, load_pathlike=True)
kind("parities", g_par, zmeas.save_parities, zmeas.load_parities, load_pathlike=True)
kind("wavefunction", g_wf, zmeas.save_wavefunction, zmeas.load_wavefunction, load_pathlike=True)
kind("distribution", g_dist, zdist.save_measurement_outcome_distribution, zdist.load_measurement_outcome_distribution)
kind("distributions", lambda r, n: [g_dist(r, n) for _ in range(r.randrange(0, 3))], zdist.save_measurement_outcome_distributions,
     zdist.load_measurement_outcome_distributions)
kind("array", g_array, zser.save_array, zser.load_array, save_stream=True, load_pathlike=True)
kind("optimization_results", g_opt, zser.save_optimization_results, zser.load_optimization_results, load_stream=False, load_pathlike=True)
kind("value_estimate", g_ve, zutils.save_value_estimate, zutils.load_value_estimate)
kind("list", g_list, lambda o, p: zutils.save_list(o, p, "stuff"), zutils.load_list)
kind("dict", g_dict, zutils.save_generic_dict, json_load, load_pathlike=True,
     got=lambda d: fp({k: v for k, v in d.items() if k != "schema"}))
kind("noise_model", g_dict, lambda o, p: zutils.save_noise_model(o, "artifacts", "make_noise", p), zutils.load_noise_model,
     expect=lambda o: fp({"noise": o}))
kind("timing", lambda r, n: abs(fl(r)), zutils.save_timing, json_load, load_pathlike=True, got=lambda d: fp(d["walltime"]))
kind("nmeas_estimate", g_nmeas, lambda o, p: zutils.save_nmeas_estimate(o[0], o[1], p, o[2]), zutils.load_nmeas_estimate, load_stream=False,
     load_pathlike=True)
kind("circuit_layers", g_layers, zlay.save_circuit_layers, zlay.load_circuit_layers)
kind("circuit_connectivity", g_conn, zlay.save_circuit_connectivity, zlay.load_circuit_connectivity)
kind("circuit_ordering", g_order, zlay.save_circuit_ordering, zlay.load_circuit_ordering)
kind("parameter_grid", g_grid, zof.save_parameter_grid_evaluation, json_load, load_pathlike=True,
     got=lambda d: [(("ve", float(v["value"]["value"]), fp(v["value"]["precision"])), fp({k: x for k, x in v.items() if k != "value"}))
                    for v in d["values_set"]],
     expect=lambda o: [(fp(v["value"]), fp({k: x for k, x in v.items() if k != "value"})) for v in o])
kind("operator_marshal", g_anyop, save_op(False), load_op(False), load_stream=False, suffix=".data")
kind("operator_text", g_textop, save_op(True), load_op(True), load_stream=False, suffix=".data")

# all saved numbers come back exactly, but for circuits' symbolic numbers (printed in decimal) and what may be normalised again when loaded
for _n, _k in K.items():
    _k.rel = REL if _n.startswith("circuit") else 4e-16 if _n in ("wavefunction", "distribution", "distributions", "optimization_results") else 0.0

ALL = sorted(K)
STREAM_SAVE = [k for k in ALL if K[k].save_stream]
STREAM_LOAD = [k for k in ALL if K[k].load_stream]
