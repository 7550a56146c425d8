"""C01: an acknowledged artifact save survives and reads back equal."""
import os
import random

import artifacts as A
import artwork as W
from amnesia import process_death
from disk import ERRORS, draw_frac, no_faults
from kernel import SimCrash, Violation, describe_exc

ID = "C01"
USES_DISK = True
RUNS = {"quick": 9600, "thorough": 200000}
RULE = ("each run: 1-3 epochs separated by process death, 1-3 interleaved clients, 1-8 save/overwrite/load operations over 1-7 shared names, artifact kinds, "
        "contents, device write/read granularity, stream or path, failing saves and crashes drawn from the seed; non-trivial = a client switch at an I/O event, "
        "a fault or a crash actually happened")
REAL = ["all save_/load_ functions of the library", "json/rapidjson/marshal", "Python text and buffer layers", "directory operations of a private tmpfs directory"]
STUB = ["device under every opened file (SimRaw)", "client scheduling", "clocks", "entropy"]
ASSUMPTIONS = ["a process crash keeps what reached the device and loses Python buffers; power-loss reordering of device writes is not modelled because the library never syncs",
               "clients of one process; concurrent writers of one name have no specified winner and are only checked once a later lone save is acknowledged",
               "symbols are not named like a sympy constant occurring in the same expression (Symbol(\"I\") beside the imaginary unit)"]
PROBES = ["overwrite-longer", "overwrite-other-kind", "load-after-crash", "short-write-save", "interleaved-saves", "failed-other-path", "load-ok", "stream-save",
          "stream-load", "restart", "same-size", "odd-refused", "odd-saved"]


def gen_op(rng, kinds, files):
    kind = rng.choice(kinds)
    if rng.random() < 0.62:
        op = dict(op="save", kind=kind, file=rng.choice(files), seed=rng.randrange(10 ** 6), size=rng.choice([0, 1, 1, 2, 3, 5]), via=W.pick_via_save(rng, kind))
        if kind in A.QUIRKS and rng.random() < 0.01:
            op["quirk"] = True
        elif kind in A.ODD and rng.random() < 0.15:
            op["odd"] = True
        x = rng.random()
        if x < 0.16:
            op["fault"] = dict(on=rng.choice(["open", "write", "write", "write", "close"]), nth=rng.choice([0, 0, 0, 1, 2, 7]),
                               kind=rng.choice(ERRORS), frac=draw_frac(rng))
        elif x < 0.26:
            op["fault"] = dict(on=rng.choice(["open", "write", "write", "close", "any"]), nth=rng.choice([0, 0, 0, 1, 2, 7]), kind="crash", frac=draw_frac(rng))
        return op
    return dict(op="load", kind=kind, file=rng.choice(files), via=W.pick_via_load(rng, kind))


def generate(rng, tier):
    n_kinds = rng.choice([1, 1, 2, 3, 6])
    kinds = rng.sample(A.ALL, n_kinds)
    files = rng.sample(range(7), rng.choice([1, 1, 2, 3, 5]))
    epochs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        tasks = []
        for t in range(rng.choice([1, 1, 2, 3])):
            ops = [gen_op(rng, kinds, files) for _ in range(rng.choice([1, 2, 3, 4, 6]))]
            if rng.random() < 0.1:  # overwritten with something that takes as many bytes
                kind, file, at = rng.choice(kinds), rng.choice(files), rng.randrange(len(ops) + 1)
                first = dict(op="save", kind=kind, file=file, seed=rng.randrange(10 ** 6), size=rng.choice([0, 1, 2, 3]), via="str")
                load = dict(op="load", kind=kind, file=file, via=rng.choice(["str", "str", W.pick_via_load(rng, kind)]))
                ops[at:at] = [first] + [load] * rng.randrange(3) + [dict(first, twin=True)] + [load] * rng.randrange(2)
            tasks.append(ops)
        epochs.append(tasks)
    sc = dict(epochs=epochs,
                sched=[rng.randrange(4) if rng.random() < 0.5 else 0 for _ in range(rng.choice([0, 40, 120]))],
                config=dict(write_chunk=rng.choice([None, None, 1 + rng.randrange(7), 64, 300]), read_chunk=rng.choice([None, None, 5 + rng.randrange(40)]),
                            bufsize=rng.choice([None, None, 16, 128, 4096]), mtime_grain=rng.choice([1, 1, 10 ** 6, 10 ** 9, 2 * 10 ** 9]), latency=rng.choice([1e-5, 1e-3, 0.05])))
    return A.enlarge(rng, sc, [o for e in epochs for t in e for o in t if o["op"] == "save"])


def execute(sim, sc):
    disk = sim.disk
    W.shared_dirs(sim)
    model = {}     # name -> (kind, fingerprint) of the last acknowledged save, or "unknown"
    writing = {}   # name -> number of saves in progress
    twins = {}
    for op in [o for e in sc["epochs"] for t in e for o in t if o.get("twin")]:
        twins[op["kind"], op["seed"], op["size"]] = twin(disk, op)
    if twins:
        process_death()
    dirty = set()  # names whose concurrent writers overlapped

    def client(ops, epoch):
        def run():
            for op in ops:
                name = W.fname(op["file"], op["kind"])
                sim.stats[op["op"]] += 1
                if op["op"] == "save":
                    k = A.K[op["kind"]]
                    obj = (A.g_quirk(op["kind"], op["seed"]) if op.get("quirk") else A.g_odd(op["kind"], op["seed"], op["size"]) if op.get("odd")
                           else k.make(op["seed"], op["size"]))
                    if op.get("twin"):
                        obj = twins.get((op["kind"], op["seed"], op["size"]), obj)
                        sim.probe("same-size")
                    want = k.expect(obj)
                    before = A.fp(obj) if op["kind"] != "parameter_grid" else want
                    prev = model.get(name)
                    old = disk.raw_read(name)
                    if writing.get(name):
                        dirty.add(name)
                    writing[name] = writing.get(name, 0) + 1
                    model[name] = "unknown"
                    if sum(1 for v in writing.values() if v) > 1:
                        sim.probe("interleaved-saves")
                    disk.arm([op["fault"]] if op.get("fault") else ())
                    try:
                        err = W.do_save(sim, op, obj)
                    finally:
                        if disk.dead:
                            model[name] = "unknown"
                    fired = sim.current.local.pop("fired", [])
                    disk.disarm()
                    writing[name] -= 1
                    after = A.fp(obj) if op["kind"] != "parameter_grid" else k.expect(obj)
                    sim.check(A.same(before, after), "object-changed-by-save",
                              lambda: "saving %s changed the object: %s -> %s" % (op["kind"], A.brief(before), A.brief(after)), "object-changed:" + op["kind"])
                    if err is not None:
                        sim.log("save failed", type(err).__name__)
                        if op.get("odd"):
                            sim.probe("odd-refused")
                        elif not fired and name not in dirty:
                            raise Violation("save-failed", "fault-free save of %s raised %s" % (op["kind"], describe_exc(err)), "save-failed:" + op["kind"])
                        sim.probe("failed-other-path")
                        if name in dirty and not writing[name]:
                            dirty.discard(name)
                        continue
                    if name in dirty:
                        if not writing[name]:
                            dirty.discard(name)
                        continue
                    if prev and prev != "unknown" and old is not None and len(old) > len(disk.raw_read(name) or b""):
                        sim.probe("overwrite-longer")
                    if prev and prev != "unknown" and prev[0] != op["kind"]:
                        sim.probe("overwrite-other-kind")
                    if op.get("via") == "stream":
                        sim.probe("stream-save")
                    if disk.write_chunk:
                        sim.probe("short-write-save")
                    if op.get("odd"):
                        sim.probe("odd-saved")
                    model[name] = (op["kind"], want, ":" + A.QUIRKS[op["kind"]] if op.get("quirk") else "")
                    sim.nontrivial = sim.nontrivial or bool(prev)
                else:
                    known = model.get(name)
                    if not known or known == "unknown" or writing.get(name) or name in dirty:
                        continue
                    op = dict(op, kind=known[0])
                    if op["via"] in ("stream", "stringio") and not A.K[known[0]].load_stream or op["via"] == "pathlike" and not A.K[known[0]].load_pathlike:
                        op["via"] = "str"
                    raw = disk.raw_read(name)
                    got, err = W.do_load(sim, op)
                    if model.get(name) is not known or writing.get(name):
                        continue  # somebody else saved there meanwhile
                    check_loaded(sim, name, known, got, err, "load")
                    sim.check(disk.raw_read(name) == raw, "file-changed-by-load", "loading %s changed the file" % op["kind"], "file-changed:" + op["kind"])
                    sim.probe("load-ok")
                    if op["via"] in ("stream", "stringio"):
                        sim.probe("stream-load")
        return run

    crashed_before = False
    for e, tasks in enumerate(sc["epochs"]):
        writing.clear()
        dirty.clear()
        crashed = sim.run_tasks([("c%d" % i, client(ops, e)) for i, ops in enumerate(tasks)])
        # process death: nothing but the directory survives
        process_death()
        if e + 1 < len(sc["epochs"]):
            sim.probe("restart")
        for name in sorted(model):
            known = model[name]
            if known == "unknown":
                continue
            raw = disk.raw_read(name)
            got, err = W.quiet_load(sim, known[0], name)
            check_loaded(sim, name, known, got, err, "load after restart")
            sim.check(disk.raw_read(name) == raw, "file-changed-by-load", "loading %s changed the file" % known[0], "file-changed:" + known[0])
            if crashed or crashed_before:
                sim.probe("load-after-crash")
        crashed_before = crashed_before or crashed


def twin(disk, op):
    """Another artifact of the same kind that takes exactly as many bytes when saved (if there is none, the same)."""
    rng = random.Random(op["seed"])
    k = A.K[op["kind"]]
    same = k.make(op["seed"], op["size"])
    with no_faults(disk):
        k.save(same, disk.path("twin-a"))
    raw = disk.raw_read("twin-a")
    places = [i for i in range(1, len(raw or b"")) if raw[i:i + 1].isdigit() and (raw[i - 1:i].isdigit() or raw[i - 1:i] == b".")]
    if not places:
        return same
    with no_faults(disk):
        try:
            for _ in range(4):
                i = rng.choice(places)
                disk.raw_write("twin-a", raw[:i] + b"%d" % ((raw[i] - 48 + rng.randrange(1, 10)) % 10) + raw[i + 1:])
                obj = k.load(disk.path("twin-a"))
                want = k.expect(obj)
                k.save(obj, disk.path("twin-b"))
                if len(disk.raw_read("twin-b")) == len(raw) and disk.raw_read("twin-b") != raw and A.same(want, k.got(k.load(disk.path("twin-b"))), k.rel):
                    return obj
        except Exception:  # not an artifact any more, or one that is saved otherwise when loaded
            pass
    return same


def check_loaded(sim, name, known, got, err, what):
    kind, want, quirk = known
    if err is not None:
        raise Violation("acknowledged-save-unreadable", "%s: %s saved to %r with no error cannot be loaded: %s" % (what, kind, name, describe_exc(err)), "unreadable:" + kind)
    try:
        fp = A.K[kind].got(got)
    except Exception as e:
        raise Violation("acknowledged-save-differs", "%s: %s at %r loads as something else: %r (%s)" % (what, kind, name, type(got), describe_exc(e)), "differs:" + kind + quirk)
    sim.check(A.same(want, fp, A.K[kind].rel), "acknowledged-save-differs",
              lambda: "%s: %s at %r: saved %s loaded %s" % (what, kind, name, A.brief(want, 600), A.brief(fp, 600)), "differs:" + kind + quirk)
