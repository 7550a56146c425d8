"""C04: saving a molecule never destroys the previously saved molecule."""
import gc
import os
import random

import h5py
import numpy as np

from artifacts import brief, same
from amnesia import process_death
from disk import no_faults
from disk import ERRORS, draw_frac
from kernel import Patches, SimCrash, Violation, describe_exc
from zquantum.core.openfermion.chem.molecular_data import MissingCalculationError, MolecularData

ID = "C04"
USES_DISK = True
RUNS = {"quick": 800, "thorough": 16000}
RULE = ("each run: 1-2 interleaved clients owning 1-2 molecule files in one directory, 1-3 epochs separated by process death, saves with drawn values cut by a crash or "
        "an I/O error at a drawn HDF5 open/dataset write/close, rename or delete, loads, lazy reads and load-modify-save; non-trivial = a crash, fault or client switch happened")
REAL = ["MolecularData", "h5py and the HDF5 library", "directory operations of a private tmpfs directory"]
STUB = ["errors and crashes at h5py file open, create_dataset, dataset reads, close and at os.rename/replace/remove", "content of HDF5 files open at a crash (cut at a drawn size)", "clocks", "uuid4"]
ASSUMPTIONS = ["an HDF5 file that was not closed when the process died is torn (cut at a drawn size); a closed one is complete",
               "one client writes a molecule file at a time; others may read it"]
PROBES = ["crash-in-save", "error-in-save", "error-in-load", "error-in-lazy-read", "old-kept", "new-kept", "lazy-read", "modify-saved", "crash-at-swap", "read-by-other", "interleaved", "derived", "derived-then-saved"]

SCALARS = ["nuclear_repulsion", "hf_energy", "mp2_energy", "cisd_energy", "fci_energy", "ccsd_energy"]
LAZY = ["canonical_orbitals", "overlap_integrals", "one_body_integrals", "two_body_integrals", "cisd_one_rdm", "cisd_two_rdm", "fci_one_rdm", "fci_two_rdm",
        "ccsd_single_amps", "ccsd_double_amps"]
RANK4 = {"two_body_integrals", "cisd_two_rdm", "fci_two_rdm", "ccsd_double_amps"}
PLAIN = ["geometry", "basis", "multiplicity", "charge", "description", "name", "n_atoms", "atoms", "protons", "n_electrons", "n_orbitals", "n_qubits", "orbital_energies",
         "general_calculations"] + SCALARS
GEOMS = [[("H", (0.0, 0.0, 0.0)), ("H", (0.0, 0.0, 0.7414))], [("Li", (0.0, 0.0, 0.0)), ("H", (0.1, -0.25, 1.5))], [("He", (0.0, 0.5, 0.0))], "a geometry file"]


TINY = 1e-8   # what the library takes for zero in coefficients


def cut(a):
    a = np.array(a, dtype=float)
    a[np.abs(a) < TINY] = 0.0
    return a


def spin(one, two):
    """Spin orbital coefficients (even: up, odd: down) of spatial integrals."""
    n = 2 * len(one)
    h, g = np.zeros((n, n)), np.zeros((n,) * 4)
    for p in range(n):
        for q in range(n):
            if p % 2 == q % 2:
                h[p, q] = one[p // 2, q // 2]
            for r in range(n):
                for s in range(n):
                    if p % 2 == s % 2 and q % 2 == r % 2:
                        g[p, q, r, s] = two[p // 2, q // 2, r // 2, s // 2]
    return cut(h), cut(g)


def o_integrals(one, two, d):
    return one, two


def o_j(one, two, d):
    return np.array([[two[p, q, q, p] for q in range(len(two))] for p in range(len(two))])


def o_k(one, two, d):
    return np.array([[two[p, q, p, q] for q in range(len(two))] for p in range(len(two))])


def o_antisym(one, two, d):
    g = spin(one, two)[1]
    return np.swapaxes(g, 2, 3) - g


def o_hamiltonian(one, two, d):
    h, g = spin(one, two)
    return d["nuclear_repulsion"], h, g / 2


def o_active(one, two, d):
    core = 2 * one[0, 0] + 2 * two[0, 0, 0, 0] - two[0, 0, 0, 0]
    new = one + 2 * two[0, :, :, 0] - two[0, :, 0, :]
    h, g = spin(new[1:, 1:], two[1:, 1:, 1:, 1:])
    return d["nuclear_repulsion"] + core, h, g / 2


def tensors(op):
    return op.constant, op.one_body_tensor, op.two_body_tensor


# name -> (what is asked of the molecule, the same computed here from what was saved, the values it needs)
INTS = ("one_body_integrals", "two_body_integrals")
DERIVED = {
    "integrals": (lambda m: m.get_integrals(), o_integrals, INTS),
    "j": (lambda m: m.get_j(), o_j, INTS[1:]),
    "k": (lambda m: m.get_k(), o_k, INTS[1:]),
    "antisym": (lambda m: m.get_antisym(), o_antisym, INTS),
    "hamiltonian": (lambda m: tensors(m.get_molecular_hamiltonian()), o_hamiltonian, INTS + ("nuclear_repulsion",)),
    "active": (lambda m: tensors(m.get_molecular_hamiltonian([0], [1])), o_active, INTS + ("nuclear_repulsion",)),
    "rdm-cisd": (lambda m: tensors(m.get_molecular_rdm())[1:], lambda one, two, d: (cut(d["cisd_one_rdm"]), cut(d["cisd_two_rdm"])), ("cisd_energy", "cisd_one_rdm", "cisd_two_rdm")),
    "rdm-fci": (lambda m: tensors(m.get_molecular_rdm(use_fci=True))[1:], lambda one, two, d: (cut(d["fci_one_rdm"]), cut(d["fci_two_rdm"])), ("fci_energy", "fci_one_rdm", "fci_two_rdm")),
}


def derived_ok(want, got):
    if isinstance(want, tuple):
        return isinstance(got, tuple) and len(got) == len(want) and all(derived_ok(w, g) for w, g in zip(want, got))
    w, g = np.asarray(want, dtype=complex), np.asarray(got, dtype=complex)
    return w.shape == g.shape and bool(np.all(np.abs(w - g) <= 1e-9 * (1 + np.abs(w).max(initial=0))))


def generate(rng, tier):
    n_clients = rng.choice([1, 1, 2])
    epochs = []
    for _ in range(rng.choice([1, 2, 2])):
        tasks = []
        for c in range(n_clients):
            ops = []
            for _ in range(rng.choice([1, 2, 3])):
                x = rng.random()
                if x < 0.6:
                    op = dict(op="save", file=rng.randrange(2), how=rng.choice(["new", "modify", "modify", "reuse"]), seed=rng.randrange(10 ** 6))
                    y = rng.random()
                    if y < 0.65:
                        on = rng.choice(["write", "write", "close", "open", "open", "meta", "meta", "any", "read"])
                        op["fault"] = dict(on=on, nth=0 if on == "meta" else rng.choice([0, 0, 1, 2, 4, 6]) if on in ("open", "read") else rng.choice([0, 1, 3, 10, 25, 31, 32, 33, 34]) if on != "close" else rng.choice([0, 0, 5, 10]),
                                           kind=rng.choice(ERRORS + ["crash"] * 14), frac=draw_frac(rng))
                        if on == "meta" and rng.random() < 0.5:
                            # whatever is done about a failing rename may be interrupted as well
                            op["fault"]["kind"] = rng.choice(ERRORS)
                            op["then"] = dict(after=True, on=rng.choice(["write", "write", "any", "open", "close"]), nth=rng.choice([0, 0, 1, 2, 3]), kind=rng.choice(ERRORS + ["crash"] * 14), frac=draw_frac(rng))
                    if op["how"] != "new" and rng.random() < 0.4:
                        op["derive"] = [rng.choice(sorted(DERIVED)) for _ in range(rng.choice([1, 1, 2]))]
                elif x < 0.77:
                    op = dict(op="load", file=rng.randrange(2), mine=rng.random() < 0.6)
                elif x < 0.88:
                    op = dict(op="derive", file=rng.randrange(2), what=rng.choice(sorted(DERIVED)))
                else:
                    op = dict(op="lazy", file=rng.randrange(2), what=rng.choice(LAZY))
                if op["op"] != "save" and rng.random() < 0.5:
                    op["fault"] = dict(on=rng.choice(["open", "read", "any"]), nth=rng.choice([0, 0, 0, 1, 1, 2, 4, 9, 20]), kind=rng.choice(ERRORS))
                ops.append(op)
            tasks.append(ops)
        epochs.append(tasks)
    return dict(epochs=epochs, tear=[round(rng.random(), 3) for _ in range(3)], sched=[rng.randrange(2) if rng.random() < 0.3 else 0 for _ in range(rng.choice([0, 80]))])


class H5Seams:
    def __init__(self, sim, tears):
        self.sim = sim
        self.disk = disk = sim.disk
        self.p = Patches()
        self.open = {}
        self.live = {}    # every file opened and not closed: (path, who opened it)
        self.tears = list(tears) or [0.5]
        seams = self
        o_init, o_close, o_create = h5py.File.__init__, h5py.File.close, h5py.Group.create_dataset
        o_get = h5py.Dataset.__getitem__
        self.o_close = o_close

        def init(self, name, mode="r", *a, **k):
            if disk.bypass or not isinstance(name, (str, bytes, os.PathLike)) or not disk.inside(name):
                return o_init(self, name, mode, *a, **k)
            path = os.path.abspath(os.fspath(name))
            f = disk.event("open", path, mode)
            if f:
                if f["kind"] == "crash" and mode in ("w", "w-", "x") and f.get("frac", 0) >= 0.5:
                    open_plain(path).close()  # created, nothing in it
                disk.apply(f, path)
            o_init(self, name, mode, *a, **k)
            seams.live[id(self)] = (self, path, sim.current)
            if mode != "r":
                seams.open[id(self)] = (self, path)

        def close(self):
            ent = seams.open.pop(id(self), None)
            seams.live.pop(id(self), None)
            if ent is None:
                return o_close(self)
            path = ent[1]
            if disk.dead:
                o_close(self)
                seams.tear(path)
                return
            try:
                f = disk.event("close", path)
            except SimCrash:
                o_close(self)
                seams.tear(path)
                raise
            o_close(self)
            if f:
                if f["kind"] == "crash":
                    if f.get("frac", 0) < 0.5:
                        seams.tear(path)
                else:
                    seams.tear(path, f.get("frac", 0))
                disk.apply(f, path)

        def create_dataset(self, name, *a, **k):
            if not disk.bypass:
                f = disk.event("write", str(name))
                if f:
                    disk.apply(f, str(name))
            return o_create(self, name, *a, **k)

        def getitem(self, *a, **k):
            if not disk.bypass:
                f = disk.event("read", str(self.name))
                if f:
                    disk.apply(f, str(self.name))
            return o_get(self, *a, **k)

        self.p.set(h5py.Dataset, "__getitem__", getitem)
        self.p.set(h5py.File, "__init__", init)
        self.p.set(h5py.File, "close", close)
        self.p.set(h5py.Group, "create_dataset", create_dataset)

    def tear(self, path, frac=None):
        if frac is None:
            frac = self.tears[len(self.open) % len(self.tears)]
        try:
            os.truncate(path, int(os.stat(path).st_size * frac))
        except OSError:
            pass

    def left_open(self, owner):
        return [path for _, path, who in self.live.values() if who is owner]

    def settle(self):
        """Process death: whatever is still open is torn."""
        self.live.clear()
        for obj, path in list(self.open.values()):
            try:
                self.o_close(obj)
            except Exception:
                pass
            self.tear(path)
        self.open.clear()

    def undo(self):
        self.settle()
        self.p.undo()


def open_plain(path):
    import io
    return io.FileIO(path, "w")


def number(rng, r, digits):
    """A field's number; zero and other special ones are values like any other."""
    x = rng.random()
    return 0.0 if x < 0.12 else rng.choice([-1.0, 1.0, 1e-12, -0.0, 1e6 + 1 / 3]) if x < 0.2 else round(rng.uniform(-r, r), digits)


def values(seed, base=None):
    """Drawn values for some of the molecule's fields."""
    rng = random.Random(seed)
    v = {}
    n = rng.choice([1, 2, 2])
    v["n_orbitals"] = n
    v["n_qubits"] = 2 * n
    rich = rng.random() < 0.3   # whatever is derived needs several of them
    for k in SCALARS:
        if rng.random() < (0.9 if rich else 0.5):
            v[k] = number(rng, 9, 6)
    if rng.random() < 0.5:
        v["orbital_energies"] = np.array([number(rng, 3, 4) for _ in range(n)])
    for k in LAZY:
        if rng.random() < (0.9 if rich else 0.25 if base else 0.4):
            shape = (n,) * (4 if k in RANK4 else 2)
            v[k] = np.zeros(shape) if rng.random() < 0.08 else np.array([number(rng, 3, 4) for _ in range(int(np.prod(shape)))]).reshape(shape)
    if rng.random() < 0.4:
        v["general_calculations"] = {("calc%s" % ("x" * i)): round(rng.uniform(-1, 1), 4) for i in range(rng.randrange(4))}
    return v


def molecule(seed, path):
    """A molecule with every field set."""
    rng = random.Random(seed)
    m = MolecularData(rng.choice(GEOMS), rng.choice(["sto-3g", "6-31g"]), rng.choice([1, 3]), rng.choice([0, 1]), rng.choice(["", "0.7414", "a b"]), filename=path)
    v = {}
    n = rng.choice([1, 2])
    shapes = {k: (n,) * (4 if k in RANK4 else 2) for k in LAZY}
    shapes.update(orbital_energies=(n,))
    for k, shape in sorted(shapes.items()):
        v[k] = np.array([number(rng, 3, 4) for _ in range(int(np.prod(shape)))]).reshape(shape)
    v.update({k: number(rng, 9, 6) for k in SCALARS}, n_orbitals=n, n_qubits=2 * n, general_calculations={"calc": 0.25})
    for k, x in v.items():
        setattr(m, k, x)
    return m


def norm(x):
    if x is None or isinstance(x, str):
        return x
    if isinstance(x, bytes):
        return x.decode("utf-8")
    if isinstance(x, np.ndarray):
        return norm(x.tolist())
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, np.generic):
        return norm(x.item())
    return x


def plain_state(m):
    return {k: norm(getattr(m, k)) for k in PLAIN}


def full_state(m):
    d = plain_state(m)
    for k in LAZY:
        d[k] = norm(getattr(m, k))
    return d


def execute(sim, sc):
    disk = sim.disk
    seams = H5Seams(sim, sc.get("tear"))
    store = {}    # name -> list of states the file may hold (None = no file yet)
    try:
        for e, tasks in enumerate(sc["epochs"]):
            busy = {}

            def client(c, ops):
                def run():
                    objs = {}
                    for op in ops:
                        sim.stats[op["op"]] += 1
                        mine = "mol%d_%d" % (c, op["file"])
                        if op["op"] == "save":
                            do_save(op, mine, objs)
                        elif op["op"] == "load":
                            name = mine if op["mine"] else "mol%d_%d" % ((c + 1) % len(tasks), op["file"])
                            do_load(op, name, name == mine)
                        elif op["op"] == "derive":
                            do_derive(op, mine)
                        else:
                            do_lazy(op, mine, objs)
                return run

            def do_save(op, name, objs):
                rng = random.Random(op["seed"] + 7)
                how = op["how"]
                states = store.get(name, [None])
                if how == "modify" and states[0] is None:
                    how = "new"
                if how == "reuse" and name not in objs:
                    how = "new"
                if how == "new":
                    geom = rng.choice(GEOMS)
                    mult = rng.choice([1, 1, 3])
                    m = MolecularData(geom, rng.choice(["sto-3g", "6-31g"]), mult, rng.choice([0, 0, 1]), rng.choice(["", "0.7414", "a b"]), filename=disk.path(name))
                elif how == "modify":
                    m = MolecularData(filename=disk.path(name) + ".hdf5")
                    sim.probe("modify-saved")
                else:
                    m = objs[name]
                if how != "new":
                    for what in op.get("derive", ()):
                        with no_faults(disk):
                            derive(m, what, full_state(m), "the molecule " + ("loaded" if how == "modify" else "saved before"))
                        sim.probe("derived-then-saved")
                for k, v in values(op["seed"], how != "new").items():
                    setattr(m, k, v)
                objs[name] = m
                with no_faults(disk):
                    want = plain_state(m)
                    for k in LAZY:
                        raw = getattr(m, "_" + k)
                        # an unset lazy property keeps what the file holds
                        want[k] = norm(raw) if raw is not None else (states[0][k] if states[0] is not None else None)
                store[name] = states + [want]
                busy[name] = True
                disk.arm([x for x in (op.get("fault"), op.get("then")) if x])
                err = None
                try:
                    m.save()
                except Exception as x:
                    err = x
                fired = sim.current.local.pop("fired", [])
                disk.disarm()
                busy[name] = False
                if err is None:
                    store[name] = [want]
                else:
                    if not fired:
                        raise Violation("save-failed", "fault-free save of a molecule raised %s" % describe_exc(err), "save-failed")
                    sim.probe("error-in-save")
                    if any(x[1] in ("rename", "replace", "remove") for x in fired):
                        sim.probe("crash-at-swap")
                settle_state(name, "after a save that %s%s" % ("raised" if err else "returned", " (injected %s)" % fired if fired else ""))

            def derive(m, what, state, whose):
                """Ask the molecule (which holds `state`) for a derived quantity."""
                ask, oracle, needs = DERIVED[what]
                if any(state[k] is None for k in needs) or (what == "active" and len(state["one_body_integrals"]) < 2):
                    try:
                        ask(m)
                    except (MissingCalculationError, TypeError, ValueError, AttributeError, IndexError):
                        pass   # what is needed is missing
                else:
                    got = ask(m)
                    arr = {k: None if state[k] is None else np.array(state[k]) for k in INTS}
                    want = oracle(arr[INTS[0]], arr[INTS[1]], state)
                    sim.check(derived_ok(want, got), "derived-differs", lambda: "%s of %s with %s: %s, expected %s" % (what, whose, brief({k: state[k] for k in needs}), brief(got), brief(want)), "derived:" + what)
                    sim.probe("derived")
                    if what not in ("integrals",):
                        for a in got if isinstance(got, tuple) else (got,):
                            if isinstance(a, np.ndarray) and a.ndim:
                                a += 1e3   # the receiver's own
                with no_faults(disk):
                    after = full_state(m)
                diff = sorted(k for k in after if not same(state[k], after[k]))
                sim.check(not diff, "molecule-changed", lambda: "asking %s for %s changed %s: %s, before %s" % (whose, what, diff, brief({k: after[k] for k in diff}), brief({k: state[k] for k in diff})), "changed:" + what)

            def do_derive(op, name):
                if store.get(name, [None])[0] is None:
                    return
                m = MolecularData(filename=disk.path(name))
                raw = disk.raw_read(name + ".hdf5")
                state = store[name][0]
                faulted(op)
                try:
                    derive(m, op["what"], state, "the molecule in " + name)
                except Violation:
                    disk.disarm()
                    raise
                except Exception as x:
                    if not lifted():
                        raise Violation("molecule-unreadable", "asking %s for %s: %s" % (name, op["what"], describe_exc(x)), "unreadable")
                    sim.probe("error-in-lazy-read")
                    derive(m, op["what"], state, "the molecule in " + name)
                lifted()
                sim.check(disk.raw_read(name + ".hdf5") == raw, "file-changed-by-read", "asking for %s changed the file" % op["what"], "file-changed")

            def settle_state(name, what):
                """Read the file and collapse what it may hold to what it does hold."""
                allowed = store[name]
                got, err = peek(name)
                if got is None and allowed[0] is None:
                    if len(allowed) > 1:
                        store[name] = [None]
                        return
                if err is not None:
                    if allowed[0] is None:
                        store[name] = [None]  # nothing was ever saved there; the first save did not complete
                        with no_faults(disk):
                            try:
                                os.remove(disk.path(name) + ".hdf5")
                            except OSError:
                                pass
                        return
                    raise Violation("molecule-destroyed", "%s the file of %s cannot be loaded: %s; directory: %s" % (what, name, describe_exc(err), disk.names()), "destroyed")
                for i, s in enumerate(allowed):
                    if s is not None and same(s, got):
                        sim.probe("old-kept" if i == 0 and len(allowed) > 1 else "new-kept")
                        store[name] = [s]
                        return
                if len(allowed) > 1 and allowed[0] is None:
                    # a first save that did not complete promises nothing
                    store[name] = [None]
                    with no_faults(disk):
                        os.remove(disk.path(name) + ".hdf5")
                    return
                diff = sorted(k for k in got if not any(s is not None and same(s[k], got[k]) for s in allowed[-1:]))
                raise Violation("molecule-differs", "%s the file of %s holds neither the previous nor the new values: differs in %s: %s, expected %s" % (
                    what, name, diff, brief({k: got[k] for k in diff}), brief([{k: s[k] for k in diff} for s in allowed if s])), "differs")

            def peek(name):
                path = disk.path(name) + ".hdf5"
                with no_faults(disk):
                    if not os.path.exists(path):
                        return None, FileNotFoundError(path)
                    try:
                        return full_state(MolecularData(filename=path)), None
                    except Exception as x:
                        return None, x

            def faulted(op):
                disk.arm([op["fault"]] if op.get("fault") else ())

            def lifted():
                disk.disarm()
                return sim.current.local.pop("fired", [])

            def do_load(op, name, mine):
                if store.get(name, [None])[0] is None:
                    return
                before = list(store[name])
                raw = None if busy.get(name) else disk.raw_read(name + ".hdf5")
                faulted(op)
                try:
                    m = MolecularData(filename=disk.path(name))
                    got = full_state(m)
                except Exception as x:
                    if lifted():
                        sim.probe("error-in-load")
                        return do_load(dict(op, fault=None), name, mine)  # once the fault is gone it loads
                    raise Violation("molecule-unreadable", "loading %s (%s): %s" % (name, "being saved by its owner" if busy.get(name) else "not being saved", describe_exc(x)), "unreadable")
                lifted()
                if not mine:
                    sim.probe("read-by-other")
                    if busy.get(name):
                        return  # lazy reads may straddle the swap
                if busy.get(name) or before != store[name]:
                    return
                if not any(same(s, got) for s in store[name]):
                    diff = sorted(k for k in got if not any(same(s[k], got[k]) for s in store[name]))
                    raise Violation("molecule-differs", "load of %s differs in %s: %s, expected %s" % (name, diff, brief({k: got[k] for k in diff}),
                                                                                                    brief([{k: s[k] for k in diff} for s in store[name]])), "differs")
                if raw is not None:
                    sim.check(disk.raw_read(name + ".hdf5") == raw, "file-changed-by-load", "loading %s changed its file" % name, "file-changed")

            def do_lazy(op, name, objs):
                if store.get(name, [None])[0] is None:
                    return
                m = MolecularData(filename=disk.path(name))
                raw = disk.raw_read(name + ".hdf5")
                faulted(op)
                try:
                    got = norm(getattr(m, op["what"]))
                except Exception as x:
                    if not lifted():
                        raise Violation("molecule-unreadable", "reading %s of %s: %s" % (op["what"], name, describe_exc(x)), "unreadable")
                    sim.probe("error-in-lazy-read")
                    got = norm(getattr(m, op["what"]))
                lifted()
                again = norm(getattr(m, op["what"]))
                sim.probe("lazy-read")
                want = store[name][0][op["what"]]
                sim.check(same(want, got) and same(got, again), "lazy-read-differs", lambda: "%s of %s: saved %s, read %s" % (op["what"], name, brief(want), brief(got)), "lazy:" + op["what"])
                sim.check(disk.raw_read(name + ".hdf5") == raw, "file-changed-by-read", "reading %s changed the file" % op["what"], "file-changed")

            crashed = sim.run_tasks([("c%d" % i, client(i, ops)) for i, ops in enumerate(tasks)])
            if sim.switches:
                sim.probe("interleaved")
            seams.settle()
            process_death()
            if crashed:
                sim.probe("crash-in-save")
            busy.clear()
            for name in sorted(store):
                settle_state(name, "after %s" % ("a crash" if crashed else "the clients ended"))
    finally:
        seams.undo()
        gc.collect()
