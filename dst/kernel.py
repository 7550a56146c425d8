"""Deterministic simulation kernel.

One scenario (plain JSON) decides one execution.  The kernel owns

* the tasks: every simulated client is a greenlet; control moves between clients
  only at seam events (`Sim.event`), and which client runs next is the next entry
  of the scenario's `sched` list (0 = stay with the current one);
* the clocks: `time.time`, `time.monotonic`, `time.perf_counter` ... read a
  simulated clock that advances only through seam events and explicit delays;
* the randomness: the global `random` and `numpy.random` generators are reseeded
  from the scenario, unseeded generators and uuids are derived from it;
* crashes: `SimCrash` is raised in every client at its next seam event and every
  simulated device goes dead, so nothing that runs while the stacks unwind can
  reach the disk.

Nothing in here draws from a PRNG or reads a real clock while a run is going on.
"""
import collections
import gc
import hashlib
import io
import json
import os
import random
import sys
import time as _time
import timeit as _timeit
import traceback
import uuid as _uuid
import weakref
import zlib

import greenlet
import numpy as np

REAL_TIME = _time.time
REAL_PERF = _time.perf_counter

MAX_EVENTS = 100000


class SimCrash(BaseException):
    """The simulated process dies here (not an Exception: library code that
    catches Exception or OSError must not survive its own death)."""


class Violation(BaseException):
    def __init__(self, kind, detail, sig=None):
        super().__init__("%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = detail
        self.sig = sig or kind


class HarnessError(BaseException):
    pass


class InjectedError(Exception):
    """Failure injected by the simulator into a stub (backend, function, ...)."""


# What a failing backend or function raises in practice is of many types; code that treats one of them
# in a special way (retries, falls back, swallows) must be met by the type it looks for.
INJECTED = [InjectedError] * 6 + [
    type("Injected" + b.__name__, (InjectedError, b), {"__str__": Exception.__str__, "__module__": __name__})
    for b in (ConnectionError, TimeoutError, OSError, ValueError, TypeError, KeyError, IndexError, AttributeError, RuntimeError,
              NotImplementedError, ArithmeticError, MemoryError, AssertionError, np.linalg.LinAlgError)]


def injected(sim, text):
    """An injected failure; its type is fixed by its text and the scenario."""
    kind = INJECTED[zlib.crc32(("%s/%s" % (text, sim.scenario.get("world"))).encode()) % len(INJECTED)]
    sim.faults["raise:" + kind.__name__[8:]] += 1
    return kind(text)


class Task:
    def __init__(self, sim, index, name, fn):
        self.index = index
        self.name = name
        self.fn = fn
        self.done = False
        self.error = None
        self.crashed = False
        self.disk_faults = []
        self.local = {}
        self.g = greenlet.greenlet(self._run, sim.main)
        self.sim = sim

    def _run(self):
        try:
            self.fn()
        except SimCrash:
            self.crashed = True
        except greenlet.GreenletExit:
            self.crashed = True
        except BaseException as e:  # handled by the scheduler
            self.error = e
            self.tb = traceback.format_exc()
        self.done = True


class Sim:
    def __init__(self, scenario, seed=None):
        self.scenario = scenario
        self.seed = seed
        self.cfg = scenario.get("config", {})
        self.sched = list(scenario.get("sched", ()))
        self.sched_pos = 0
        self.seq = 0
        self.log_h = hashlib.blake2b(digest_size=16)
        self.log_tail = collections.deque(maxlen=400)
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.tasks = []
        self.current = None
        self.main = greenlet.getcurrent()
        self.crashed = False
        self.killing = False
        self.switches = 0
        self.clock = SimClock(self)
        self.disk = None
        self.nontrivial = False
        self.shape_h = hashlib.blake2b(digest_size=12)  # interleaving/fault shape
        self.keep_log = scenario.get("keep_log", False)
        self.full_log = []

    # ------------------------------------------------------------ logging
    def log(self, *what):
        s = "|".join(map(str, what))
        self.log_h.update(s.encode("utf-8", "replace"))
        self.log_h.update(b"\n")
        line = "%d %s" % (self.seq, s)
        self.log_tail.append(line)
        if self.keep_log:
            self.full_log.append(line)

    def shape(self, *what):
        self.shape_h.update("|".join(map(str, what)).encode())
        self.shape_h.update(b"\n")

    def probe(self, name):
        self.probes[name] += 1

    def fault(self, kind):
        self.faults[kind] += 1
        self.nontrivial = True
        self.shape("F", kind)
        self.log("FAULT", kind)

    def violate(self, kind, detail="", sig=None):
        raise Violation(kind, detail, sig)

    def check(self, cond, kind, detail="", sig=None):
        self.stats["checks"] += 1
        if not cond:
            if callable(detail):
                detail = detail()
            raise Violation(kind, detail, sig)

    # ---------------------------------------------------------- scheduling
    def next_choice(self, n):
        if self.sched_pos < len(self.sched):
            c = self.sched[self.sched_pos]
            self.sched_pos += 1
            return c % n
        return 0

    def event(self, name, detail=""):
        """A seam event: a point where the outside world may act."""
        self.seq += 1
        self.stats["events"] += 1
        if self.seq > MAX_EVENTS:
            raise Violation("no-progress", "the run passed %d seam events without finishing" % MAX_EVENTS, "no-progress")
        self.clock.advance(self.cfg.get("latency", 0.001))
        t = self.current
        self.log(t.name if t else "-", name, detail)
        self.shape(t.index if t else "-", name)
        if self.crashed:
            raise SimCrash()
        if t is None or greenlet.getcurrent() is not t.g:
            return
        others = [x for x in self.tasks if not x.done and x is not t]
        if others:
            c = self.next_choice(len(others) + 1)
            if c:
                self.switches += 1
                self.nontrivial = True
                self.main.switch(others[c - 1])
                if self.crashed:
                    raise SimCrash()

    def crash(self, why=""):
        """Kill the whole simulated process (all clients)."""
        self.fault("crash" if not why else "crash:" + why)
        self.crashed = True
        if self.disk is not None:
            self.disk.die()
        raise SimCrash()

    def run_tasks(self, named_fns):
        """Run one epoch: clients to completion, or until a crash."""
        self.crashed = False
        self.tasks = [Task(self, i, n, f) for i, (n, f) in enumerate(named_fns)]
        if self.disk is not None:
            self.disk.revive()
        nxt = None
        try:
            while True:
                live = [t for t in self.tasks if not t.done]
                if not live:
                    break
                if self.crashed:
                    for t in live:
                        self.current = t
                        if t.g:
                            t.g.throw(SimCrash)
                        if not t.done:
                            if not t.g:
                                t.done = t.crashed = True
                            else:
                                raise HarnessError("task survived a crash")
                    break
                if nxt is None or nxt.done:
                    nxt = live[self.next_choice(len(live))]
                self.current = nxt
                self.log("RUN", nxt.name)
                want = nxt.g.switch()
                t = self.current
                if t.done and t.error is not None:
                    raise t.error
                nxt = want if isinstance(want, Task) else None
        finally:
            for t in self.tasks:
                if not t.done and t.g:
                    self.crashed = True
                    if self.disk is not None:
                        self.disk.die()
                    self.current = t
                    try:
                        t.g.throw(SimCrash)
                    except BaseException:
                        pass
            self.current = None
        crashed = self.crashed
        self.crashed = False
        if self.disk is not None:
            self.disk.revive()
        return crashed

    def digest(self):
        return self.log_h.hexdigest()


class SimClock:
    """Simulated clocks.  `true` is physical elapsed time; the wall clock is an
    affine function of it that faults may step or slew; the monotonic clock is
    true time plus an arbitrary offset."""

    def __init__(self, sim):
        self.sim = sim
        self.true = 0.0
        self.wall_offset = 1.6e9
        self.wall_rate = 1.0
        self.mono_offset = 12345.0

    def advance(self, dt):
        self.true += dt
        if self.wall_rate != 1.0:
            self.wall_offset += dt * (self.wall_rate - 1.0)

    def step_wall(self, delta):
        self.wall_offset += delta

    def wall(self):
        return self.wall_offset + self.true

    def mono(self):
        return self.mono_offset + self.true


# --------------------------------------------------------------- patching
class Patches:
    ACTIVE = collections.Counter()  # (id of the owner, name) of every seam in place

    def __init__(self):
        self.saved = []

    def set(self, obj, name, value):
        self.saved.append((obj, name, getattr(obj, name)))
        Patches.ACTIVE[id(obj), name] += 1
        setattr(obj, name, value)

    def undo(self):
        while self.saved:
            obj, name, value = self.saved.pop()
            Patches.ACTIVE[id(obj), name] -= 1
            if not Patches.ACTIVE[id(obj), name]:
                del Patches.ACTIVE[id(obj), name]
            setattr(obj, name, value)

    def rebind(self):
        """Also replace what library modules imported by name (`from time import time`)."""
        names = {}
        for obj, name, value in self.saved:
            names.setdefault(id(value), (value, getattr(obj, name)))
        for mod, attr in library_names():
            v = mod.__dict__.get(attr)
            hit = names.get(id(v))
            if hit is not None and hit[0] is v:
                self.set(mod, attr, hit[1])


_lib_cache = (0, ())
_LIB_WATCH = {"open", "sleep"}


def library_names():
    """(module, global name) of every builtin-like function a library module imported by name."""
    global _lib_cache
    if _lib_cache[0] != len(sys.modules):
        import types
        found = []
        for n, m in list(sys.modules.items()):
            if not (n.split(".")[0] in ("zquantum", "steps")):
                continue
            for k, v in list(getattr(m, "__dict__", {}).items()):
                if isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) and getattr(v, "__module__", "").split(".")[0] not in ("zquantum", "steps"):
                    found.append((m, k))
        _lib_cache = (len(sys.modules), tuple(found))
    return _lib_cache[1]


class Addresses:
    """`id` as the library sees it: the lowest address that is free, i.e. not that of a living object.

    An object's address says nothing once the object is gone; here it is taken by the
    very next object asked about, which on a real machine happens now and then."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.cells = []  # weak references to the objects at the addresses

    def __call__(self, o):
        try:
            r = weakref.ref(o)
        except TypeError:
            return id(o)
        for i, c in enumerate(self.cells):
            if c() is o:
                return BASE_ADDRESS + 64 * i
        gc.collect()
        for i, c in enumerate(self.cells):
            if c() is None:
                self.cells[i] = r
                return BASE_ADDRESS + 64 * i
        self.cells.append(r)
        return BASE_ADDRESS + 64 * (len(self.cells) - 1)


BASE_ADDRESS = 1 << 46
ADDRESSES = Addresses()
_id_seen = [0]


def seam_id():
    """Library modules find the simulated `id` where they would find the built-in one."""
    if _id_seen[0] != len(sys.modules):
        _id_seen[0] = len(sys.modules)
        for n, m in list(sys.modules.items()):
            if n.split(".")[0] in ("zquantum", "steps") and hasattr(m, "__dict__"):
                m.__dict__.setdefault("id", ADDRESSES)
    ADDRESSES.reset()


_REAL_DEFAULT_RNG = np.random.default_rng


def install_world(sim, patches, base_seed):
    """Clocks, entropy and generators of one run."""
    c = sim.clock
    seam_id()
    patches.set(_time, "time", c.wall)
    patches.set(_time, "time_ns", lambda: int(c.wall() * 1e9))
    patches.set(_time, "monotonic", c.mono)
    patches.set(_time, "monotonic_ns", lambda: int(c.mono() * 1e9))
    patches.set(_time, "perf_counter", c.mono)
    patches.set(_time, "perf_counter_ns", lambda: int(c.mono() * 1e9))
    patches.set(_time, "sleep", c.advance)
    for n in ("process_time", "thread_time"):  # this process computes for part of the time only
        if hasattr(_time, n):
            patches.set(_time, n, lambda: c.true / 8)
            patches.set(_time, n + "_ns", lambda: int(c.true / 8 * 1e9))
    wall_ids = {getattr(_time, n) for n in ("CLOCK_REALTIME", "CLOCK_REALTIME_COARSE", "CLOCK_TAI") if hasattr(_time, n)}
    cpu_ids = {getattr(_time, n) for n in ("CLOCK_PROCESS_CPUTIME_ID", "CLOCK_THREAD_CPUTIME_ID") if hasattr(_time, n)}

    def clock_gettime(i):
        return c.wall() if i in wall_ids else c.true / 8 if i in cpu_ids else c.mono()
    if hasattr(_time, "clock_gettime"):
        patches.set(_time, "clock_gettime", clock_gettime)
    if hasattr(_time, "clock_gettime_ns"):
        patches.set(_time, "clock_gettime_ns", lambda i: int(clock_gettime(i) * 1e9))
    patches.set(_timeit, "default_timer", c.mono)
    random.seed(base_seed)
    np.random.seed(base_seed % (2**32))
    entropy = random.Random(base_seed ^ 0x5EED)

    def default_rng(seed=None):
        if seed is None:
            seed = entropy.getrandbits(64)
        return _REAL_DEFAULT_RNG(seed)

    patches.set(np.random, "default_rng", default_rng)
    patches.set(_uuid, "uuid4", lambda: _uuid.UUID(int=entropy.getrandbits(128), version=4))
    patches.set(os, "urandom", lambda n: bytes(entropy.getrandbits(8) for _ in range(n)))
    # ARPACK starts from a vector of its own hidden generator: draw it from the run's entropy instead
    import scipy.sparse.linalg as spl

    def with_start(real):
        def solver(A, *a, **kw):
            if kw.get("v0") is None:
                n = A.shape[0]
                kw["v0"] = _REAL_DEFAULT_RNG(entropy.getrandbits(64)).uniform(-1, 1, n)
            return real(A, *a, **kw)
        return solver
    patches.set(spl, "eigsh", with_start(spl.eigsh))
    patches.set(spl, "eigs", with_start(spl.eigs))
    patches.rebind()


class quiet_stdout:
    """Library code prints progress messages; they are not part of any check."""

    def __enter__(self):
        self.saved = sys.stdout
        sys.stdout = io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout = self.saved


def describe_exc(e):
    return "%s: %s" % (type(e).__name__, str(e)[:300])
