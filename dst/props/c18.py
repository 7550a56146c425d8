"""C18: reported durations are right whatever the wall clock does."""
import json
import random
import types

import numpy as np

import artifacts as A
import steps17 as S
from amnesia import process_death
from disk import no_faults
from disk import ERRORS, draw_frac
from kernel import HarnessError, describe_exc
from zquantum.core import openfermion as of
from zquantum.core.utils import save_timing

ID = "C18"
USES_DISK = True
RUNS = {"quick": 4000, "thorough": 200000}
RULE = ("each run: 1-3 clients, each running 1-3 transformation steps or timing saves in its own order; inside each transformation simulated time passes in 1-5 drawn pieces (microseconds to months), between them the wall clock is stepped, slewed or "
        "skewed and other clients run; file operations take drawn times; crashes and I/O errors at drawn operations, then a rerun; non-trivial = the clock was disturbed, a fault injected or clients interleaved")
REAL = ["steps.transforms.transform_interaction_operator", "save_timing", "jordan_wigner, bravyi_kitaev", "operator and JSON writing and reading"]
STUB = ["wall, monotonic and processor clocks", "how long a computation takes", "device under every opened file (SimRaw)", "process death and restart"]
ASSUMPTIONS = ["simulated time passes only inside the transformation and in file operations", "durations are compared to one part in 10^9 and a microsecond"]
PROBES = ["jordan-wigner", "bravyi-kitaev", "path-input", "object-input", "wall-back", "wall-forward", "wall-skewed", "wall-before-epoch", "monotonic-from-zero", "interleaved", "crash", "error-surfaced", "rerun", "long", "short", "save-only"]

HOOK = [None]  # (name, real function, arguments) -> result, while a run is going on
_SHIMMED = {}


def shim(f):
    """Let the simulator see calls of a library function whoever holds a reference to it."""
    if f in _SHIMMED:
        return
    real = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, f.__closure__)
    real.__kwdefaults__ = f.__kwdefaults__
    if f.__closure__:
        raise HarnessError("cannot shim %s" % f.__name__)
    _SHIMMED[f] = real
    key = "_dst_hook_%s" % f.__name__

    def enter(a, k):
        return HOOK[0](f.__name__, real, a, k) if HOOK[0] is not None else real(*a, **k)
    f.__globals__[key] = enter
    ns = {}
    exec("def shim(*a, **k):\n    return %s(a, k)\n" % key, ns)
    f.__defaults__ = None
    f.__kwdefaults__ = None
    f.__code__ = ns["shim"].__code__


shim(of.jordan_wigner)
shim(of.bravyi_kitaev)


def duration(rng):
    x = rng.random()
    return 0.0 if x < 0.1 else round(rng.uniform(1e-6, 1e-3), 9) if x < 0.4 else round(rng.uniform(0.001, 60), 6) if x < 0.8 else round(rng.uniform(60, 1e7), 3)


def generate(rng, tier):
    clients = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.15:
                ops.append(dict(op="save", seed=rng.randrange(10 ** 6)))
                continue
            acts = []
            for _ in range(rng.randrange(1, 6)):
                x = rng.random()
                if x < 0.5:
                    acts.append(["pass", duration(rng)])
                elif x < 0.85:
                    acts.append(["step", rng.choice([-1, 1]) * (rng.choice([1e-6, 0.5, 1.0, 3600.0, 86400.0 * 400, 1.7e9]) if rng.random() < 0.5 else round(rng.uniform(0, 100), 6))])
                elif x < 0.95:
                    acts.append(["rate", rng.choice([0.0, 0.5, 0.999, 1.001, 2.0, -1.0])])
                else:
                    acts.append(["yield", 0])
            fault = None
            if rng.random() < 0.3:
                fault = dict(on=rng.choice(["any", "open", "write", "read", "close"]), nth=rng.choice([0, 0, 1, 2, 3, 5]), frac=draw_frac(rng), kind=rng.choice(ERRORS + ["crash"] * 7))
            ops.append(dict(op="step", which=rng.choice(["Jordan-Wigner", "Bravyi-Kitaev"]), seed=rng.randrange(10 ** 6), path=rng.random() < 0.5, acts=acts, fault=fault))
        clients.append(ops)
    n = rng.choice([0, 0, 30, 80])
    return dict(clients=clients, sched=[rng.randrange(3) if rng.random() < 0.5 else 0 for _ in range(n)],
                config=dict(latency=rng.choice([0.001, 0.001, 0.0, 0.37, 11.0]), mono=rng.choice([0.0, 12345.0, 3e6]), wall=rng.choice([1.6e9, 0.0, 2.0 ** 31 - 5, -50.0]),
                            write_chunk=rng.choice([None, None, 200]), bufsize=None, read_chunk=None))


def execute(sim, sc):
    from steps.transforms import transform_interaction_operator
    disk = sim.disk
    clock = sim.clock
    clock.mono_offset = sim.cfg.get("mono", 12345.0)
    clock.wall_offset = sim.cfg.get("wall", 1.6e9)
    if clock.mono_offset == 0.0:
        sim.probe("monotonic-from-zero")
    done = [0] * len(sc["clients"])
    span = {}

    def disturb(acts):
        for kind, x in acts:
            if kind == "pass":
                clock.advance(x)
                if x > 60:
                    sim.probe("long")
                elif 0 < x < 1e-3:
                    sim.probe("short")
            elif kind == "step":
                sim.fault("wall-back" if x < 0 else "wall-forward")
                sim.probe("wall-back" if x < 0 else "wall-forward")
                clock.step_wall(x)
            elif kind == "rate":
                sim.fault("wall-rate")
                sim.probe("wall-skewed")
                clock.wall_rate = x
            else:
                sim.event("slow", "")
            if clock.wall() < 0:
                sim.probe("wall-before-epoch")

    def hook(name, real, a, k):
        t = sim.current
        if t is None or "acts" not in t.local or t.local.get("inside"):
            return real(*a, **k)
        t.local["inside"] = True
        start = clock.true
        before = sim.switches
        try:
            acts = t.local["acts"]
            half = (len(acts) + 1) // 2
            disturb(acts[:half])
            r = real(*a, **k)
            disturb(acts[half:])
            return r
        finally:
            t.local["inside"] = False
            t.local["spans"].append((name, start, clock.true))
            if sim.switches > before:
                sim.probe("interleaved")

    def read(name):
        with no_faults(disk):
            return disk.raw_read(name)

    def timing(name, what):
        raw = read(name)
        sim.check(raw is not None, "timing-missing", lambda: "%s returned, but there is no %s" % (what, name), "timing-missing")
        try:
            d = json.loads(raw)
            w = d["walltime"]
        except (ValueError, KeyError, TypeError) as e:
            sim.violate("timing-unreadable", "%s returned with %s in %s (%s)" % (what, A.brief(raw), name, describe_exc(e)), "timing-unreadable")
        return w

    lock = [None]  # every step writes the same file names: one at a time in this directory, the others wait outside

    def client(ci, ops):
        def go():
            t = sim.current
            while done[ci] < len(ops):
                op = ops[done[ci]]
                r = random.Random(op["seed"])
                if op["op"] == "save":
                    w = duration(r)
                    name = "t%d.json" % ci
                    sim.probe("save-only")
                    save_timing(w, name)
                    got = timing(name, "save_timing")
                    sim.check(isinstance(got, (int, float)) and abs(got - w) <= 1e-9 * w, "timing-saved", lambda: "save_timing(%r) left walltime %r" % (w, got), "timing-saved")
                    done[ci] += 1
                    continue
                while lock[0] is not None and lock[0] != ci:
                    sim.event("wait", "")
                    if lock[0] is not None and lock[0] != ci:
                        # the holder has to run on: nothing else may be scheduled for ever
                        holder = [x for x in sim.tasks if x.name == "c%d" % lock[0] and not x.done]
                        if not holder:
                            lock[0] = None
                            break
                        sim.switches += 1
                        sim.main.switch(holder[0])
                        if sim.crashed:
                            from kernel import SimCrash
                            raise SimCrash()
                lock[0] = ci
                try:
                    with no_faults(disk):
                        o = S.iop(r, r.choice([1, 2, 2]))
                        arg = o
                        if op["path"]:
                            arg = "in%d.json" % ci
                            of.save_interaction_operator(o, arg)
                    sim.probe("path-input" if op["path"] else "object-input")
                    sim.probe("jordan-wigner" if op["which"] == "Jordan-Wigner" else "bravyi-kitaev")
                    t.local["acts"], t.local["spans"] = op["acts"], []
                    t.local.pop("fired", None)
                    fault = op["fault"] if (ci, done[ci]) not in span else None
                    span[(ci, done[ci])] = True
                    if fault:
                        disk.arm([fault])
                    else:
                        if op["fault"]:
                            sim.probe("rerun")
                    start = clock.true
                    err = None
                    try:
                        transform_interaction_operator(op["which"], arg)
                    except Exception as e:
                        err = e
                    fired = t.local.pop("fired", [])
                    disk.disarm()
                    spans = t.local["spans"]
                    t.local.pop("acts")
                    if err is not None:
                        sim.check(bool(fired), "step-failed", lambda: "transform_interaction_operator(%s) failed: %s" % (op["which"], describe_exc(err)), "failed")
                        sim.probe("error-surfaced")
                        continue
                    w = timing("timing.json", "transform_interaction_operator")
                    sim.check(isinstance(w, (int, float)) and not isinstance(w, bool) and w == w, "timing-not-a-number", lambda: "walltime %r" % (w,), "timing-not-a-number")
                    true = sum(b - a for _, a, b in spans)
                    if spans:
                        lo = hi = true
                    else:  # computed without the two functions: all that is known is how long the whole step took
                        lo, hi = 0.0, clock.true - start
                    tol = 1e-6 + 1e-9 * (hi + clock.mono_offset)
                    sim.check(lo - tol <= w <= hi + tol, "duration-wrong", lambda: "the %s transformation took %r s, the reported walltime is %r (clock disturbed by %s)" % (op["which"], true, w, op["acts"]), "duration-wrong")
                    done[ci] += 1
                finally:
                    if lock[0] == ci:
                        lock[0] = None
        return go

    HOOK[0] = hook
    try:
        for _ in range(12):
            crashed = sim.run_tasks([("c%d" % i, client(i, ops)) for i, ops in enumerate(sc["clients"])])
            lock[0] = None
            if not crashed:
                break
            process_death()
            sim.probe("crash")
    finally:
        HOOK[0] = None
    sim.check(all(d == len(o) for d, o in zip(done, sc["clients"])), "not-finished", lambda: "finished %s of %s" % (done, [len(o) for o in sc["clients"]]), "not-finished")
