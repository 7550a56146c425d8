"""C03: I/O failures surface, leak no handles and do not poison a retry."""
import artifacts as A
import artwork as W
from disk import ERRORS, draw_frac, no_faults
from kernel import Violation, describe_exc
from zquantum.core.openfermion.chem.molecular_data import MolecularData, geometry_from_file
from props.c04 import H5Seams, LAZY, full_state, molecule, norm

ID = "C03"
USES_DISK = True
RUNS = {"quick": 9600, "thorough": 200000}
RULE = ("each run: 1-2 interleaved clients, each 1-4 saves or loads of a drawn artifact with an I/O error (once, or lasting until lifted) at a drawn open, write, flush, close or read; "
        "then the same call repeated without the fault; non-trivial = an error was actually injected")
REAL = ["all save_/load_ functions of the library", "json/rapidjson/marshal", "Python text and buffer layers"]
STUB = ["device under every opened file (SimRaw)", "client scheduling", "clocks", "entropy"]
ASSUMPTIONS = ["a handle whose write failed keeps failing; a failing close has lost part of what was written",
               "an injected error the library recovers from by itself is not a failure as long as the data is really in the file (or really read)"]
PROBES = ["save-error-surfaced", "load-error-surfaced", "retry-ok", "error-at-open", "error-at-write", "error-at-close", "error-at-read", "stream-error", "missing-file",
          "overwrite-failed", "odd-refused", "molecule-error", "molecule-done"]


def generate(rng, tier):
    tasks = []
    for t in range(rng.choice([1, 1, 1, 2])):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            kind = rng.choice(A.ALL)
            x = rng.random()
            if rng.random() < 0.012:
                step = lambda: [dict(op=rng.choice(["save", "save", "load", "lazy", "geometry"]), on=rng.choice(["open", "write", "read", "close", "meta", "any"]), nth=rng.choice([0, 0, 0, 1, 3, 9, 20, 33]),
                                     kind=rng.choice(ERRORS), frac=draw_frac(rng), what=rng.choice(LAZY))][0]
                ops.append(dict(op="molecule", file=rng.randrange(2), seed=rng.randrange(10 ** 6), steps=[step() for _ in range(rng.choice([1, 2, 3]))]))
                continue
            base = dict(kind=kind, file=rng.randrange(4), seed=rng.randrange(10 ** 6), size=rng.choice([0, 1, 2, 4, 8]))
            fault = dict(nth=rng.choice([0, 0, 0, 1, 2, 5, 9]), frac=draw_frac(rng))
            if rng.random() < 0.3:
                fault["sticky"] = True
            if x < 0.6:
                fault.update(on=rng.choice(["open", "write", "write", "write", "close", "any"]), kind=rng.choice(ERRORS))
                ops.append(dict(base, op="save", via=W.pick_via_save(rng, kind), fault=fault))
                if kind in A.ODD and rng.random() < 0.1:
                    ops[-1]["odd"] = True
            elif x < 0.97:
                fault.update(on=rng.choice(["open", "read", "read", "read", "close", "any"]), kind=rng.choice(ERRORS))
                ops.append(dict(base, op="load", via=W.pick_via_load(rng, kind), fault=fault))
            else:
                ops.append(dict(base, op="missing", via=rng.choice(["str", "rel"])))
        tasks.append(ops)
    sc = dict(tasks=tasks, sched=[rng.randrange(3) if rng.random() < 0.4 else 0 for _ in range(rng.choice([0, 60]))],
                config=dict(write_chunk=rng.choice([None, None, 1 + rng.randrange(30), 200]), bufsize=rng.choice([None, None, 16, 64, 512]),
                            read_chunk=rng.choice([None, None, 5 + rng.randrange(30)])))
    return A.enlarge(rng, sc, [o for t in tasks for o in t if "kind" in o])


def execute(sim, sc):
    disk = sim.disk
    W.shared_dirs(sim)

    def call(task, op, faulty, obj=None):
        """One call; returns (result, error, fired) after checking handles."""
        disk.arm([op["fault"]] if faulty else ())
        if op["op"] == "save":
            err = W.do_save(sim, op, obj)
            got = None
        else:
            got, err = W.do_load(sim, op)
        fired = sim.current.local.pop("fired", [])
        disk.disarm()
        left = disk.open_handles(sim.current)
        sim.check(not left, "handle-leaked", lambda: "%s of %s via %s (%s) left %d file(s) open: %s" % (
            op["op"], op["kind"], op["via"], describe_exc(err) if err else "returned", len(left), [h._path for h in left]), "leak:%s:%s" % (op["op"], op["kind"]))
        for k, cls in fired:
            sim.probe("error-at-" + cls)
            if op["via"] in ("stream", "stringio"):
                sim.probe("stream-error")
        return got, err, fired

    def client(tid, ops):
        def run():
            task = sim.current
            saved = {}
            for op in ops:
                op = dict(op, file=op["file"])
                sim.stats[op["op"]] += 1
                if op["op"] == "molecule":
                    molecules(sim, seams, "t%d_mol%d" % (tid, op["file"]), op)
                    continue
                k = A.K[op["kind"]]
                name = "t%d" % tid + W.fname(op["file"], op["kind"]).replace("/", "_")
                op["name"] = name
                if op["op"] == "missing":
                    op["name"] = name = "never-" + name
                    op["op"] = "load"
                    got, err, _ = call(task, op, False)
                    sim.check(err is not None, "missing-file-loaded", lambda: "load of a path that does not exist returned %r" % (got,), "missing:" + op["kind"])
                    sim.probe("missing-file")
                    continue
                obj = k.make(op["seed"], op["size"])
                want = k.expect(obj)
                before = A.fp(obj) if op["kind"] != "parameter_grid" else want
                if op.get("odd"):  # refused or saved, with the fault and without
                    odd = A.g_odd(op["kind"], op["seed"], op["size"])
                    for faulty in (False, True):
                        got, err, fired = call(task, op, faulty, odd)
                        if err is None:
                            present(sim, op, name, k.expect(odd), "a save that reported success%s" % (" despite %s" % fired if fired else ""), "save-lied:")
                        else:
                            sim.probe("odd-refused")
                if op["op"] == "save":
                    if name in saved:
                        sim.probe("overwrite-failed")
                    got, err, fired = call(task, op, True, obj)
                    unchanged(sim, op, obj, before)
                    if err is None:
                        present(sim, op, name, want, "a save that reported success%s" % (" despite %s" % fired if fired else ""), "save-lied:")
                    else:
                        if not fired:
                            raise Violation("save-failed", "fault-free save of %s raised %s" % (op["kind"], describe_exc(err)), "save-failed:" + op["kind"])
                        sim.probe("save-error-surfaced")
                    got, err, fired = call(task, op, False, obj)
                    if err is not None:
                        raise Violation("retry-failed", "saving %s again with no fault raised %s" % (op["kind"], describe_exc(err)), "retry-save:" + op["kind"])
                    unchanged(sim, op, obj, before)
                    present(sim, op, name, want, "the retried save", "retry-lied:")
                    saved[name] = True
                    sim.probe("retry-ok")
                else:
                    sop = dict(op, op="save", via="str")
                    _, err, _ = call(task, sop, False, obj)
                    if err is not None:
                        raise Violation("save-failed", "fault-free save of %s raised %s" % (op["kind"], describe_exc(err)), "save-failed:" + op["kind"])
                    saved[name] = True
                    raw = disk.raw_read(name)
                    got, err, fired = call(task, op, True)
                    sim.check(disk.raw_read(name) == raw, "file-changed-by-load", "loading %s changed the file" % op["kind"], "file-changed:" + op["kind"])
                    if err is None:
                        equal(sim, op, got, want, "a load that returned%s" % (" despite %s" % fired if fired else ""), "load-lied:")
                    else:
                        if not fired:
                            raise Violation("load-failed", "fault-free load of %s raised %s" % (op["kind"], describe_exc(err)), "load-failed:" + op["kind"])
                        sim.probe("load-error-surfaced")
                    got, err, fired = call(task, op, False)
                    if err is not None:
                        raise Violation("retry-failed", "loading %s again with no fault raised %s" % (op["kind"], describe_exc(err)), "retry-load:" + op["kind"])
                    equal(sim, op, got, want, "the retried load", "retry-load-lied:")
                    sim.check(disk.raw_read(name) == raw, "file-changed-by-load", "loading %s changed the file" % op["kind"], "file-changed:" + op["kind"])
                    sim.probe("retry-ok")
        return run

    seams = H5Seams(sim, [0.5]) if any(o["op"] == "molecule" for t in sc["tasks"] for o in t) else None
    try:
        sim.run_tasks([("c%d" % i, client(i, ops)) for i, ops in enumerate(sc["tasks"])])
    finally:
        if seams:
            seams.undo()


def molecules(sim, seams, name, op):
    """Save, load and read a molecule, each step with an I/O error and then without."""
    disk = sim.disk
    path = disk.path(name)
    with no_faults(disk):
        mol = molecule(op["seed"], path)
        want = full_state(mol)
        mol.save()
        with open(path + ".xyz", "w") as f:
            f.write("".join("H %d 0.5 %d.25\n" % (i, op["seed"] % 100) for i in range(5)))
    for i, st in enumerate(op["steps"]):
        what, label = st["op"], "%s of a molecule" % st["op"]
        if what == "save":
            with no_faults(disk):
                mol = molecule(op["seed"] + i + 1, path)
                want = full_state(mol)
        raw = None if what == "save" else disk.raw_read(name + ".hdf5")
        for faulty in (True, False):
            with no_faults(disk):
                loaded = MolecularData(filename=path) if what == "lazy" else None
            disk.arm([dict(on=st["on"], nth=st["nth"], kind=st["kind"], frac=st["frac"])] if faulty else ())
            got = err = None
            try:
                if what == "save":
                    mol.save()
                elif what == "geometry":
                    got = norm(geometry_from_file(path + ".xyz"))
                elif what == "load":
                    got = full_state(MolecularData(filename=path))
                else:
                    got = norm(getattr(loaded, st["what"]))
            except Exception as e:
                err = e
            fired = sim.current.local.pop("fired", [])
            disk.disarm()
            left = seams.left_open(sim.current) + [h._path for h in disk.open_handles(sim.current)]
            sim.check(not left, "handle-leaked", lambda: "%s (%s) left open: %s" % (label, describe_exc(err) if err else "returned", left), "leak:molecule:" + what)
            if err is not None and not fired:
                raise Violation("retry-failed", "%s with no fault raised %s" % (label, describe_exc(err)), "retry:molecule:" + what)
            sim.probe("molecule-error" if err is not None else "molecule-done")
            with no_faults(disk):
                if what == "save":
                    now = full_state(mol)
                    sim.check(A.same(want, now), "object-changed-by-save", lambda: "saving a molecule changed it", "object-changed:molecule")
                    if err is None:
                        got = full_state(MolecularData(filename=path))
            if err is None:
                exp = [["H", [float(j), 0.5, op["seed"] % 100 + 0.25]] for j in range(5)] if what == "geometry" else want[st["what"]] if what == "lazy" else want
                sim.check(A.same(exp, got), "wrong-data", lambda: "%s%s: expected %s, got %s" % (label, " despite %s" % fired if fired else "", A.brief(exp), A.brief(got)), "lied:molecule:" + what)
            if raw is not None:
                sim.check(disk.raw_read(name + ".hdf5") == raw, "file-changed-by-load", "%s changed its file" % label, "file-changed:molecule")


def unchanged(sim, op, obj, before):
    after = A.fp(obj) if op["kind"] != "parameter_grid" else A.K[op["kind"]].expect(obj)
    sim.check(A.same(before, after), "object-changed-by-save", lambda: "saving %s changed the object: %s -> %s" % (op["kind"], A.brief(before), A.brief(after)),
              "object-changed:" + op["kind"])


def equal(sim, op, got, want, what, sig):
    try:
        fp = A.K[op["kind"]].got(got)
    except Exception as e:
        raise Violation("wrong-data", "%s: %s is not a %s (%s)" % (what, got, op["kind"], describe_exc(e)), sig + op["kind"])
    sim.check(A.same(want, fp, A.K[op["kind"]].rel), "wrong-data", lambda: "%s: %s: expected %s got %s" % (what, op["kind"], A.brief(want), A.brief(fp)), sig + op["kind"])


def present(sim, op, name, want, what, sig):
    got, err = W.quiet_load(sim, op["kind"], name)
    if err is not None:
        raise Violation("save-lied", "%s of %s left a file that cannot be loaded: %s" % (what, op["kind"], describe_exc(err)), sig + op["kind"])
    equal(sim, op, got, want, what, sig)
