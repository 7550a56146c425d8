"""C16: a quantum state object is normalised after every accepted or rejected update."""
import copy
import math
import pickle
import random
import warnings

import numpy as np
import sympy

import artifacts as A
from kernel import InjectedError, Patches, injected
from zquantum.core import distribution as zd
from zquantum.core import wavefunction as zw
from zquantum.core.wavefunction import Wavefunction

ID = "C16"
RUNS = {"quick": 3500, "thorough": 200000}
RULE = ("each run: 1-4 interleaved clients with histories of constructing, assigning (items, slices, index lists; admissible, inadmissible, of the wrong length or type), binding, copying and reading shared and own states, numeric and symbolic, "
        "and of constructing, normalising, comparing distributions; failures injected into value conversion, into the numeric routines the library calls (failing allocation) and into caller-supplied distance functions; "
        "non-trivial = a failure or a client switch happened")
REAL = ["Wavefunction", "flip_wavefunction", "MeasurementOutcomeDistribution", "distribution distances"]
STUB = ["values whose conversion to a number fails", "allocation failures of numpy routines", "caller-supplied distance functions", "client scheduling"]
ASSUMPTIONS = ["clients do not write through the array returned by .amplitudes", "values are finite numbers, symbols or symbolic expressions (numeric states also get nan and inf)",
               "an assignment within a rounding error of the admissible bound is not judged"]
PROBES = ["numeric", "symbolic", "accepted", "rejected-norm", "slight-excess", "rejected-type", "rejected-index", "slice", "list-index", "all-at-once", "last-symbol-assigned", "symbol-added", "bind-full", "bind-partial", "bind-rejected", "bind-empty", "caller-array-changed",
          "constructor-rejected", "alloc-failed", "conversion-failed", "shared", "copy", "pickle", "dicke", "flip", "dist-rejected", "dist-normalised", "dist-unnormalised", "distance", "distance-failed", "distance-rejected", "dist-probabilities"]
warnings.filterwarnings("ignore", module="sympy")
SYMS = sympy.symbols("a b c d")
TOL = 1e-6


def vec(r, n, kind):
    """Amplitudes with total probability one."""
    if kind == "basis":
        v = [0j] * n
        v[r.randrange(n)] = r.choice([1, -1, 1j, 1 + 0j])
        return v
    if kind == "dyadic":
        k = r.choice([k for k in (1, 2, 4, 8) if k <= n])
        if k in (2, 8):
            k = k // 2 if k == 2 else 4
        a = {1: 1.0, 4: 0.5}[k if k in (1, 4) else 1]
        v = [0j] * n
        for i in r.sample(range(n), k):
            v[i] = a * r.choice([1, -1, 1j, -1j])
        return v
    v = np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(n)])
    v = v / np.sqrt(np.sum(np.abs(v) ** 2))
    return [complex(x) for x in v]


def sym_vec(r, n):
    """Symbols plus numbers with total probability at most one."""
    k = r.randrange(1, n) if n > 1 else 1
    free = set(r.sample(range(n), k))
    room = r.choice([0.0, 0.25, 0.5, 0.9, 1.0])
    v = []
    share = room / max(1, n - k)
    for i in range(n):
        if i in free:
            v.append(r.choice([SYMS[0], SYMS[1], SYMS[2], SYMS[3], SYMS[0] / 2, sympy.exp(sympy.I * SYMS[1]) / 2, sympy.cos(SYMS[2])]))
        else:
            v.append(round(math.sqrt(share), 3) * 0.99 * r.choice([1, -1, 1j]) if share < 1 else 0.5)
    return v


def generate(rng, tier):
    clients = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        ops = []
        for _ in range(rng.choice([3, 6, 10, 16])):
            x = rng.random()
            o = dict(seed=rng.randrange(10 ** 6), on=rng.randrange(4), fail=None)
            if x < 0.45:
                o.update(op="assign", where=rng.choice(["item", "item", "item", "slice", "list", "all", "outside"]),
                         what=rng.choice(["same", "phase", "swap", "vector", "free-room", "symbol", "symbol", "close", "close", "too-much", "too-much", "slight", "slight", "zero", "rubbish", "length", "nan", "lazy"]))
            elif x < 0.6:
                o.update(op="bind", how=rng.choice(["full", "full", "partial", "empty", "too-much", "slight", "foreign", "rename"]))
            elif x < 0.75:
                o.update(op="read")
            elif x < 0.83:
                o.update(op="new", how=rng.choice(["bad-norm", "bad-length", "bad-sym", "zero-state", "dicke", "bad-dicke", "array", "matrix", "list", "rubbish"]))
            elif x < 0.87:
                o.update(op="copy", how=rng.choice(["copy", "deepcopy", "pickle", "flip"]))
            elif x < 0.95:
                o.update(op="dist", how=rng.choice(["new", "new", "raw", "bad", "probs"]), kind=rng.choice(["plain", "counts", "unit", "zeros", "edge", "single"]))
            else:
                o.update(op="distance", how=rng.choice(["mmd", "nll", "jsd", "own", "own-fail", "widths", "mixed", "type"]))
            if rng.random() < 0.25:
                o["fail"] = rng.randrange(0, 5)
            ops.append(o)
        clients.append(ops)
    states = []
    for _ in range(4):
        states.append(dict(seed=rng.randrange(10 ** 6), n=rng.choice([2, 4, 4, 8] * 8 + [32]), sym=rng.random() < 0.5, kind=rng.choice(["basis", "dyadic", "random"]), given=rng.choice(["list", "array", "matrix", "tuple"])))
    return dict(clients=clients, states=states, sched=[rng.randrange(4) if rng.random() < 0.5 else 0 for _ in range(rng.choice([0, 30, 80]))])


class Fussy:
    """A value that fails when it is converted to a number."""

    def __init__(self, sim, value, exc):
        self.sim, self.value, self.exc = sim, value, exc

    def _go(self):
        self.sim.fault("conversion")
        raise self.exc("conversion")

    def __complex__(self):
        self._go()

    def __float__(self):
        self._go()

    def _sympy_(self):
        self._go()


class Interrupt(BaseException):
    pass


def content(o):
    """What a state object holds, entry by entry, as seen through its public interface."""
    out = []
    for x in list(o):
        if isinstance(x, np.ndarray):
            x = x.ravel()[0]
        if isinstance(x, sympy.Basic):
            out.append(("s", A.sx(x)))
        else:
            x = complex(x)
            out.append((x.real.hex(), x.imag.hex()))
    return out


def numeric(x):
    try:
        return complex(x)
    except Exception:
        return None


def total(entries):
    """(probability of the numeric entries, any symbol left)."""
    p, sym = 0.0, False
    for x in entries:
        if isinstance(x, np.ndarray):
            x = x.ravel()[0]
        c = numeric(x)
        if c is None:
            sym = True
        else:
            p += abs(c) ** 2
    return p, sym


def entries_of(o):
    return [x.ravel()[0] if isinstance(x, np.ndarray) else x for x in list(o)]


def close(a, b):
    ca, cb = numeric(a), numeric(b)
    if ca is None or cb is None:
        return ca is None and cb is None and sympy.sympify(a) == sympy.sympify(b)
    return ca == cb or abs(ca - cb) <= 1e-14 * max(1.0, abs(cb))


NP_NAMES = ["sum", "abs", "absolute", "isclose", "array", "asarray", "copy"]


class Alloc:
    """Makes the n-th numpy routine called inside an operation fail with MemoryError."""

    def __init__(self, sim, nth):
        self.sim, self.left, self.fired, self.patches = sim, nth, False, Patches()

    def __enter__(self):
        if self.left is None:
            return self
        for name in NP_NAMES:
            f = getattr(np, name)

            def g(*a, _f=f, **k):
                if not self.fired:
                    if self.left == 0:
                        self.fired = True
                        self.sim.fault("alloc")
                        raise MemoryError("allocation")
                    self.left -= 1
                return _f(*a, **k)
            self.patches.set(np, name, g)
        return self

    def __exit__(self, *a):
        self.patches.undo()


def execute(sim, sc):
    shared = []
    for k, s in enumerate(sc["states"]):
        r = random.Random(s["seed"])
        v = sym_vec(r, s["n"]) if s["sym"] else vec(r, s["n"], s["kind"])
        given = {"list": list, "tuple": tuple, "array": lambda x: np.array(x, dtype=object if s["sym"] else complex), "matrix": sympy.Matrix}[s["given"]](v)
        w = Wavefunction(given)
        sim.check(all(close(a, b) for a, b in zip(entries_of(w), v)) and len(w) == len(v), "construction", lambda: "a state created from %s holds %s" % (v, entries_of(w)), "construction")
        if s["given"] in ("list", "array", "matrix"):
            given[0] = 0.3 if s["given"] != "array" or not s["sym"] else sympy.Integer(7)
            sim.probe("caller-array-changed")
            sim.check(all(close(a, b) for a, b in zip(entries_of(w), v)), "caller-array", lambda: "changing the vector a state was created from turned it into %s" % entries_of(w), "caller-array")
        shared.append([w, content(w)])
        sim.probe("symbolic" if s["sym"] else "numeric")
    users = {}

    def invariant(i, when):
        w, want = shared[i]
        now = content(w)
        sim.check(now == want, "changed", lambda: "%s: state %d is %s, was %s" % (when, i, entries_of(w), want), "changed:" + when.split()[0])
        p, sym = total(list(w))
        if sym:
            sim.check(p <= 1 + TOL, "probability", lambda: "%s: state %d has probability %s without its symbols" % (when, i, p), "probability")
        else:
            sim.check(abs(p - 1) < 2e-5, "probability", lambda: "%s: state %d has total probability %s" % (when, i, p), "probability")

    def all_invariants(when):
        for i in range(len(shared)):
            invariant(i, when)

    def client(ci, ops):
        def go():
            for o in ops:
                sim.event("op", o["op"])
                sim.stats["ops"] += 1
                i = o["on"] % len(shared)
                u = users.setdefault(i, set())
                if u - {ci}:
                    sim.probe("shared")
                u.add(ci)
                r = random.Random(o["seed"])
                when = {"assign": do_assign, "bind": do_bind, "read": do_read, "new": do_new, "copy": do_copy, "dist": do_dist, "distance": do_distance}[o["op"]](o, i, r)
                all_invariants(when or o["op"])
        return go

    def guarded(o, f):
        a = Alloc(sim, o["fail"])
        try:
            with a:
                res = f()
            return "ok", res, a.fired
        except (Exception, Interrupt) as e:
            if a.fired:
                sim.probe("alloc-failed")
            return "raised", e, a.fired

    def do_assign(o, i, r):
        w = shared[i][0]
        before = entries_of(w)
        n = len(before)
        p0, sym0 = total(before)
        matrixy = any(isinstance(x, sympy.Basic) for x in before)
        where = o["where"]
        if where == "item":
            j = r.randrange(n)
            idx, pos = r.choice([j, j, j - n, np.int64(j)]), [j]
        elif where == "outside":
            idx, pos = r.choice([n, n + 3, -n - 1]), []
        elif where == "slice":
            a, b = sorted([r.randrange(n + 1), r.randrange(n + 1)])
            idx = r.choice([slice(a, b), slice(a, None), slice(None, b), slice(None, None, 2)])
            pos = list(range(n))[idx]
            sim.probe("slice")
        elif where == "list":
            pos = r.sample(range(n), r.randrange(1, n + 1))
            idx = r.choice([list(pos), np.array(pos)])
            sim.probe("list-index")
        else:
            idx, pos = slice(None), list(range(n))
            sim.probe("all-at-once")
        old = [before[j] for j in pos]
        what = o["what"]
        lazy = False
        if what == "same":
            new = list(old)
        elif what == "phase":
            ph = r.choice([1j, -1, -1j])
            new = [x * ph if numeric(x) is not None else x for x in old]
            new = [complex(x) if numeric(x) is not None else x for x in new]
        elif what == "swap":
            new = list(old)
            r.shuffle(new)
        elif what == "vector":
            new = [complex(x) for x in vec(r, n, "random")][:len(pos)] if len(pos) == n else list(reversed(old))
        elif what == "free-room":
            rest = sum(abs(numeric(x)) ** 2 for k, x in enumerate(before) if k not in pos and numeric(x) is not None)
            room = max(0.0, 1 - rest)
            new = [math.sqrt(room / max(1, len(pos)))] * len(pos)
            if sym0:
                new = [x * 0.9 for x in new]
        elif what == "close":
            # fills up to exactly one when the assigned entries are the last symbols
            rest = sum(abs(numeric(x)) ** 2 for k, x in enumerate(before) if k not in pos and numeric(x) is not None)
            room = max(0.0, 1 - rest)
            new = [math.sqrt(room / max(1, len(pos))) * r.choice([1, -1, 1j])] * len(pos)
        elif what == "slight":
            # misses probability one by little, but by more than a rounding error
            rest = sum(abs(numeric(x)) ** 2 for k, x in enumerate(before) if k not in pos and numeric(x) is not None)
            room = max(0.0, 1 - rest) + r.choice([3e-4, 2e-3, 6e-3, 9e-3] + ([] if sym0 else [-3e-4, -4e-3]))
            new = [math.sqrt(max(0.0, room) / max(1, len(pos))) * r.choice([1, -1, 1j])] * len(pos)
            sim.probe("slight-excess")
        elif what == "symbol":
            new = [r.choice(SYMS) for _ in pos]
        elif what == "too-much":
            new = [r.choice([1.1, 2.0, -3.0, 1.05j, 0.9 + 0.9j])] * len(pos)
        elif what == "zero":
            new = [0.0] * len(pos)
        elif what == "rubbish":
            new = [r.choice([None, "x", "not a number", object(), [0.5, 0.5], {}])] * len(pos)
        elif what == "length":
            new = [0.5] * (len(pos) + r.choice([1, 2]))
        elif what == "nan":
            new = [float(r.choice(["nan", "inf"])) if not sym0 else 5.0] * len(pos)
        else:
            lazy = True
            new = list(old)
            if new:
                new[r.randrange(len(new))] = Fussy(sim, 0.5, r.choice([InjectedError, Interrupt, ValueError, TypeError]))
        single = where in ("item", "outside")
        if single:
            val = new[0] if new else 0.1
        else:
            val = r.choice([list, list, tuple])(new)
        status, res, fired = guarded(o, lambda: w.__setitem__(idx, val))
        after = entries_of(w)
        say = "state %d %s [%s] = %s" % (i, before, idx, val if not lazy else "value failing its conversion")
        if status == "raised":
            sim.check(content(w) == shared[i][1], "rejected-assignment", lambda: "%s raised %r and left %s" % (say, res, after), "rejected-changed:%s:%s" % (where, what))
            if lazy:
                sim.probe("conversion-failed")
        # what an undisturbed assignment must do
        # (several entries of a symbolic state at once follow sympy's matrix indexing: only the invariants are judged)
        if not fired and not lazy and what not in ("rubbish", "length") and (single or not matrixy):
            expect = list(before)
            for j, x in zip(pos, new):
                expect[j] = x
            p, sym = total(expect)
            ground_sym = any(numeric(x) is None for x in new)
            if status == "ok" and pos:
                sim.check(all(close(a, b) for a, b in zip(after, expect)) and len(after) == n, "assignment", lambda: "%s left %s" % (say, after), "assignment:%s" % where)
            bad = p != p or (p > 1 + 1e-4 if sym else abs(p - 1) > 1e-4)
            good = (p < 1 - 1e-9 if sym else abs(p - 1) < 1e-9)
            was_symbolic_class = sym0
            if where == "outside":
                sim.check(status == "raised", "outside", lambda: "%s was accepted" % say, "outside")
                sim.probe("rejected-index")
            elif pos and bad:
                sim.check(status == "raised", "accepted-unnormalised", lambda: "%s was accepted: probability %s" % (say, p), "accepted-unnormalised")
                sim.probe("rejected-norm")
            elif single and good and not ground_sym:
                sim.check(status == "ok", "rejected-valid", lambda: "%s raised %r although the probability would be %s" % (say, res, p), "rejected-valid")
                sim.probe("accepted")
            elif single and good and was_symbolic_class:
                sim.check(status == "ok", "rejected-valid", lambda: "%s raised %r although the numbers would sum to %s" % (say, res, p), "rejected-valid-symbol")
                sim.probe("symbol-added")
            elif not single and good and not matrixy and not sym and pos:
                sim.check(status == "ok", "rejected-valid", lambda: "%s raised %r although the probability would be %s" % (say, res, p), "rejected-valid-many")
                sim.probe("accepted")
            if status == "ok" and sym0 and not sym:
                sim.probe("last-symbol-assigned")
            if ground_sym and status == "raised":
                sim.probe("rejected-type")
        if what in ("rubbish", "length") and pos and not fired and status == "ok":
            p, sym = total(after)
            sim.check(len(after) == n, "length", lambda: "%s left %d amplitudes" % (say, len(after)), "length")
            if not sym:
                sim.check(abs(p - 1) < 2e-5, "probability", lambda: "%s left probability %s" % (say, p), "probability")
        if status == "ok":
            if fired and (single or not matrixy):
                # an absorbed allocation failure: all of the assignment or nothing
                expect = list(before)
                for j, x in zip(pos, new):
                    expect[j] = x
                sim.check(content(w) == shared[i][1] or all(close(a, b) for a, b in zip(after, expect)), "half-assignment", lambda: "%s left %s" % (say, after), "half-assignment")
            shared[i][1] = content(w)
        if what == "nan" and sym0 is False and status == "ok" and pos:
            sim.violate("accepted-nan", "%s was accepted" % say, "accepted-nan")
        sim.log("assign", status, type(res).__name__)
        return "assign %s" % say[:200]

    def do_bind(o, i, r):
        w = shared[i][0]
        before = entries_of(w)
        p0, sym0 = total(before)
        free = sorted(w.free_symbols, key=str)
        how = o["how"]
        m = {}
        if how == "empty":
            sim.probe("bind-empty")
        elif how == "foreign":
            m = {sympy.Symbol("zz"): 3.0}
        elif how == "rename":
            m = {s: sympy.Symbol("q_" + s.name) for s in free[:2]}
        elif how == "too-much":
            m = {s: r.choice([3.0, -2.5, 40.0]) for s in free}
        elif how == "partial" and len(free) > 1:
            m = {s: 0.0 if r.random() < 0.5 else 0.01 for s in free[:-1]}
        elif free:
            # plain symbols: choose a value that completes the state
            plain = [k for k, x in enumerate(before) if isinstance(x, sympy.Symbol)]
            others = [x for x in before if isinstance(x, sympy.Basic) and numeric(x) is None and not isinstance(x, sympy.Symbol)]
            if not others and plain:
                miss = 0.0
                if how == "slight":
                    miss = r.choice([3e-4, 2e-3, 9e-3, -3e-4])
                    sim.probe("slight-excess")
                amp = math.sqrt(max(0.0, 1 - p0 + miss) / len(plain))
                m = {s: amp * r.choice([1, -1]) for s in free}
            else:
                m = {s: 0.0 for s in free}
        keys = dict(m)
        status, res, fired = guarded(o, lambda: w.bind(m))
        sim.check(m == keys, "map-changed", lambda: "bind changed the map %s to %s" % (keys, m), "map-changed")
        if fired:
            return "bind with a failing allocation"
        expect = [x if numeric(x) is not None else sympy.sympify(x).subs(m) for x in before]
        p, sym = total(expect)
        bad = p > 1 + 1e-4 if sym else abs(p - 1) > 1e-4
        good = p < 1 - 1e-9 if sym else abs(p - 1) < 1e-9
        if not sym0:
            good, bad = True, False
        if bad:
            sim.check(status == "raised", "bind-accepted", lambda: "binding %s in %s was accepted: probability %s" % (m, before, p), "bind-accepted")
            sim.probe("bind-rejected")
        elif good:
            sim.check(status == "ok", "bind-refused", lambda: "binding %s in %s raised %r" % (m, before, res), "bind-refused")
        if status == "ok":
            got = entries_of(res)
            sim.check(len(got) == len(expect) and all(close(a, b) or (numeric(a) is not None and numeric(b) is not None and abs(numeric(a) - numeric(b)) < 1e-9) for a, b in zip(got, expect)), "bind", lambda: "binding %s in %s gave %s" % (m, before, got), "bind")
            if sym0:
                sim.probe("bind-partial" if sym else "bind-full")
                # the bound state is another object: assigning to it leaves the original alone
                keep = content(res)
                try:
                    res[0] = -res[0] if not sym else 0.0
                except Exception:
                    sim.check(content(res) == keep, "rejected-assignment", lambda: "a rejected assignment left the bound state %s" % entries_of(res), "rejected-changed:bound")
        return "bind"

    def do_read(o, i, r):
        w = shared[i][0]
        before = entries_of(w)
        p0, sym0 = total(before)

        def reads():
            a = w.amplitudes
            return [len(w), w.n_qubits, set(w.free_symbols), str(w), w.get_probabilities(), w.get_outcome_probs(), a, w[0], w[-1], w[:2], w == w, w == 3, repr(w)]
        status, res, fired = guarded(o, reads)
        if fired:
            return "read with a failing allocation"
        if status == "raised":
            sim.violate("read-raised", "reading %s raised %r" % (before, res), "read-raised")
        n = len(before)
        sim.check(res[0] == n and 2 ** res[1] == n, "read", lambda: "length %s qubits %s of %s" % (res[0], res[1], before), "read-length")
        want = set()
        for x in before:
            if numeric(x) is None:
                want |= sympy.sympify(x).free_symbols
        sim.check(res[2] == want, "read", lambda: "free symbols %s of %s" % (res[2], before), "read-symbols")
        amps = np.array(res[6]).ravel()
        sim.check(all(close(a, b) for a, b in zip(amps, before)), "read", lambda: "amplitudes %s of %s" % (amps, before), "read-amplitudes")
        if not sym0:
            pr = np.array(res[4]).ravel()
            op = res[5]
            sim.check(abs(sum(pr) - 1) < 2e-5 and all(abs(a - abs(complex(b)) ** 2) < 1e-12 for a, b in zip(pr, before)), "read", lambda: "probabilities %s of %s" % (pr, before), "read-probabilities")
            nq = res[1]
            sim.check(len(op) == n and all(abs(float(np.ravel(op[format(k, "0%db" % nq)[::-1]])[0]) - pr[k]) < 1e-12 for k in range(n)), "read", lambda: "outcome probabilities %s of %s" % (op, before), "read-outcomes")
        return "read"

    def do_new(o, i, r):
        how = o["how"]
        n = r.choice([2, 4, 8])
        given, want = None, None
        if how == "bad-norm":
            given = [x * r.choice([0.5, 1.2, 0.99, 1.001, 0.999]) for x in vec(r, n, "random")]
        elif how == "bad-length":
            given = (vec(r, n, "random") + [0.0] * r.choice([1, 3]))[:n + 3]
            if bin(len(given)).count("1") == 1:
                given = given[:-1]
        elif how == "bad-sym":
            given = [SYMS[0], r.choice([1.5, 1.001, 1.004j, -1.0003])] + [0] * (n - 2)
        elif how == "rubbish":
            given = r.choice([[], ["a", "b"], [None, 1], 5])
        elif how in ("zero-state", "dicke"):
            nq = r.randrange(1, 5)
            k = r.randrange(0, nq + 1)
            status, res, fired = guarded(o, lambda: Wavefunction.zero_state(nq) if how == "zero-state" else Wavefunction.dicke_state(nq, k))
            if fired:
                return "new"
            sim.check(status == "ok", "constructor", lambda: "%s(%d, %d) raised %r" % (how, nq, k, res), "constructor")
            hot = [j for j in range(2 ** nq) if (j == 0 if how == "zero-state" else bin(j).count("1") == k)]
            a = 1 / math.sqrt(len(hot))
            sim.check(len(res) == 2 ** nq and all(abs(complex(res[j]) - (a if j in hot else 0)) < 1e-12 for j in range(2 ** nq)), "constructor", lambda: "%s(%d, %d) gave %s" % (how, nq, k, entries_of(res)), "constructor")
            sim.probe("dicke")
            return "new"
        elif how == "bad-dicke":
            args = r.choice([(2, 3), (2, -1), (0, 0), (-1, 0), (3, 1.5)])
            status, res, fired = guarded(o, lambda: Wavefunction.dicke_state(*args))
            sim.check(status == "raised", "constructor", lambda: "dicke_state%s gave %s" % (args, entries_of(res)), "constructor-bad")
            sim.probe("constructor-rejected")
            return "new"
        else:
            v = vec(r, n, r.choice(["basis", "dyadic", "random"]))
            given = np.array(v) if how == "array" else sympy.Matrix(v) if how == "matrix" else list(v)
            want = v
        keep = copy.deepcopy(given)
        status, res, fired = guarded(o, lambda: Wavefunction(given))
        sim.check(repr(given) == repr(keep), "caller-array", lambda: "creating a state from %s changed that to %s" % (keep, given), "caller-array-new")
        if fired:
            return "new"
        if want is None:
            sim.check(status == "raised", "constructor", lambda: "a state was created from %s" % (given,), "constructor-bad")
            sim.probe("constructor-rejected")
        else:
            sim.check(status == "ok", "constructor", lambda: "creating a state from %s raised %r" % (given, res), "constructor")
            sim.check(all(close(a, b) for a, b in zip(entries_of(res), want)), "constructor", lambda: "a state created from %s holds %s" % (given, entries_of(res)), "constructor")
        return "new"

    def do_copy(o, i, r):
        w = shared[i][0]
        how = o["how"]
        before = entries_of(w)
        _, sym0 = total(before)
        if how == "flip":
            status, res, fired = guarded(o, lambda: zw.flip_wavefunction(w))
            if fired:
                return "flip"
            sim.check(status == "ok", "flip", lambda: "flipping %s raised %r" % (before, res), "flip")
            n = len(before)
            nq = n.bit_length() - 1
            got = entries_of(res)
            sim.check(all(close(got[int(format(k, "0%db" % nq)[::-1], 2)], before[k]) for k in range(n)), "flip", lambda: "flipping %s gave %s" % (before, got), "flip")
            sim.probe("flip")
        else:
            res = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}[how](w)
            sim.probe("pickle" if how == "pickle" else "copy")
            sim.check(len(res) == len(before) and all(close(a, b) for a, b in zip(entries_of(res), before)), "copy", lambda: "a copy of %s holds %s" % (before, entries_of(res)), "copy")
        if how != "copy":
            keep = content(res)
            j = r.randrange(len(before))
            try:
                x = res[j]
                res[j] = r.choice([-x if numeric(x) is not None else 0.0, 2.0, 0.0])
            except ValueError:
                sim.check(content(res) == keep, "rejected-assignment", lambda: "a rejected assignment left the copy %s" % entries_of(res), "rejected-changed:copy")
        return "copy " + how

    dists = []

    def dist_dict(r, kind, width=None):
        w = width or r.choice([1, 2, 3])
        keys = [tuple(r.randrange(3) for _ in range(w)) for _ in range(r.randrange(1, 6))]
        keys = list(dict.fromkeys(keys))
        if kind == "single":
            keys = keys[:1]
        if kind == "counts":
            vals = [r.randrange(1, 1000) for _ in keys]
        elif kind == "zeros":
            vals = [0.0 if k else 2.5 for k in range(len(keys))]
        elif kind == "edge":
            vals = [r.choice([1e-12, 1e300, 1.0, 1e-300]) for _ in keys]
            if sum(vals) < 1e-290:
                vals[0] = 1.0
        else:
            vals = [r.random() + 0.01 for _ in keys]
            if kind == "unit":
                s = sum(vals)
                vals = [v / s for v in vals]
        return dict(zip(keys, vals))

    def as_keys(r, d):
        style = r.choice(["tuple", "str", "comma", "mixed"])
        out = {}
        for k, v in d.items():
            s = style if style != "mixed" else r.choice(["tuple", "str", "comma"])
            if s == "comma" and len(k) == 1:
                s = "str"
            out[k if s == "tuple" else "".join(map(str, k)) if s == "str" else ",".join(map(str, k))] = v
        return out

    def do_dist(o, i, r):
        how = o["how"]
        d = dist_dict(r, o["kind"])
        if how == "bad":
            keys = list(d)
            x = r.randrange(8)
            if x == 0:
                d[keys[-1]] = -0.2
            elif x == 1:
                d[keys[-1] + (0,)] = 0.5
            elif x == 2:
                d[(-1,) * len(keys[0])] = 0.1
            elif x == 3:
                d = {}
            elif x == 4:
                d = {k: 0.0 for k in keys}
            elif x == 5:
                d[keys[0]] = r.choice([math.inf, math.nan])
            elif x == 6:
                # Weights that are finite one by one, but not their sum
                d = {k: 1e308 for k in keys}
                d[keys[0]] = d[(2 - keys[0][0],) * len(keys[0])] = 1.5e308
                if len(d) == 1:
                    d[tuple(k + 1 for k in keys[0])] = 1e308
            else:
                d = {5: 0.5, 6: 0.5}
            keep = dict(d)
            status, res, fired = guarded(o, lambda: zd.MeasurementOutcomeDistribution(d))
            sim.check(status == "raised", "dist-accepted", lambda: "a distribution was created from %s: %s" % (keep, res), "dist-accepted")
            sim.check(d == keep and list(d) == list(keep), "dist-argument", lambda: "a rejected distribution changed its argument to %s" % d, "dist-argument")
            sim.probe("dist-rejected")
            return "dist"
        if how == "probs":
            n = r.choice([2, 4, 8])
            p = np.abs(np.array(vec(r, n, "random"))) ** 2
            keep = p.copy()
            status, res, fired = guarded(o, lambda: zd.create_bitstring_distribution_from_probability_distribution(p))
            sim.check(np.array_equal(p, keep), "dist-argument", lambda: "creating a distribution changed the probabilities to %s" % p, "dist-argument")
            if fired:
                return "dist"
            sim.check(status == "ok", "dist-refused", lambda: "probabilities %s raised %r" % (p, res), "dist-refused")
            nq = n.bit_length() - 1
            sim.check(len(res.distribution_dict) == n and all(abs(res.distribution_dict[tuple(int(b) for b in format(k, "0%db" % nq))] - p[k]) < 1e-9 for k in range(n)), "dist", lambda: "probabilities %s gave %s" % (p, res), "dist-probs")
            sim.probe("dist-probabilities")
            return "dist"
        given = as_keys(r, d)
        keep = dict(given)
        raw = how == "raw"
        status, res, fired = guarded(o, lambda: zd.MeasurementOutcomeDistribution(given, normalize=not raw))
        sim.check(given == keep and list(given) == list(keep), "dist-argument", lambda: "creating a distribution from %s changed that to %s" % (keep, given), "dist-argument")
        if fired:
            return "dist"
        sim.check(status == "ok", "dist-refused", lambda: "%s raised %r" % (given, res), "dist-refused")
        norm = math.fsum(d.values())
        got = res.distribution_dict
        is_one = math.isclose(norm, 1)
        want = {k: v if raw or is_one else v / norm for k, v in d.items()}
        sim.check(set(got) == set(want) and all(math.isclose(got[k], want[k], rel_tol=1e-9, abs_tol=1e-300) for k in want), "dist", lambda: "%s (normalize=%s) gave %s" % (given, not raw, got), "dist-values")
        sim.check(raw or abs(math.fsum(got.values()) - 1) < 1e-8, "dist", lambda: "%s gave the unnormalised %s" % (given, got), "dist-norm")
        sim.probe("dist-unnormalised" if raw and not is_one else "dist-normalised")
        sim.check(res.get_number_of_subsystems() == len(list(d)[0]), "dist", "number of subsystems", "dist-width")
        # the distribution is independent of the dictionary it was created from
        k0 = list(given)[0]
        given[k0] = 17.0
        given["junk"] = 1.0
        sim.check(set(res.distribution_dict) == set(want) and all(math.isclose(res.distribution_dict[k], want[k], rel_tol=1e-9, abs_tol=1e-300) for k in want), "dist-argument", lambda: "changing the dictionary changed the distribution to %s" % res, "dist-aliased")
        dists.append((res, dict(res.distribution_dict), raw and not is_one))
        return "dist"

    def do_distance(o, i, r):
        width = r.choice([1, 2])
        how = o["how"]
        pool = [x for x in dists if len(list(x[1])[0]) == width and not x[2]]
        mk = lambda: zd.MeasurementOutcomeDistribution({k: v for k, v in dist_dict(r, "plain", width).items()})
        a = r.choice(pool)[0] if pool and r.random() < 0.6 else mk()
        b = r.choice(pool)[0] if pool and r.random() < 0.6 else mk()
        if how == "widths":
            b = zd.MeasurementOutcomeDistribution({k: v for k, v in dist_dict(r, "plain", width + 1).items()})
        if how == "mixed":
            b = zd.MeasurementOutcomeDistribution({(0,) * width: 3.0}, normalize=False)
        keep = [(x, dict(x.distribution_dict)) for x in (a, b)]
        kw = {}
        if how in ("mmd", "widths", "mixed"):
            f, kw = zd.compute_mmd, {"distance_measure_parameters": {"sigma": r.choice([0.5, 1, [0.5, 2.0]])}}
        elif how == "nll":
            f, kw = zd.compute_clipped_negative_log_likelihood, {"distance_measure_parameters": {"epsilon": 1e-6}}
        elif how == "jsd":
            f, kw = zd.compute_jensen_shannon_divergence, {"distance_measure_parameters": {"epsilon": 1e-6}}
        else:
            def f(t, m, **k):
                sim.event("distance")
                if how == "own-fail":
                    sim.fault("distance")
                    raise injected(sim, "distance")
                return len(t.distribution_dict) + len(m.distribution_dict)
        kw_keep = copy.deepcopy(kw)
        bb = b.distribution_dict if how == "type" else b
        status, res, fired = guarded(o if how not in ("own", "own-fail") else dict(o, fail=None), lambda: zd.evaluate_distribution_distance(a, bb, f, **kw))
        for x, want in keep:
            sim.check(x.distribution_dict == want and list(x.distribution_dict) == list(want), "distance-changed", lambda: "a distance changed %s to %s" % (want, x.distribution_dict), "distance-changed:" + how)
        sim.check(kw == kw_keep, "distance-changed", lambda: "a distance changed its parameters %s to %s" % (kw_keep, kw), "distance-kw")
        if fired:
            return "distance"
        if how in ("widths", "mixed", "type"):
            sim.check(status == "raised", "distance-accepted", lambda: "%s: distance %s" % (how, res), "distance-accepted")
            sim.probe("distance-rejected")
        elif how == "own-fail":
            sim.check(status == "raised" and isinstance(res, InjectedError), "distance-swallowed", lambda: "failing distance gave %r" % (res,), "distance-swallowed")
            sim.probe("distance-failed")
        else:
            binary = all(b in (0, 1) for _, d in keep for k in d for b in k)  # mmd is for bitstrings
            sim.check(status == "ok" and res == res or how == "mmd" and not binary, "distance", lambda: "%s distance of %s and %s gave %r" % (how, a, b, res), "distance:" + how)
            sim.probe("distance")
        return "distance"

    sim.run_tasks([("c%d" % i, client(i, ops)) for i, ops in enumerate(sc["clients"])])
    all_invariants("end")
    for x, want, _ in dists:
        sim.check(x.distribution_dict == want, "dist-changed", lambda: "distribution %s is now %s" % (want, x), "dist-changed")
