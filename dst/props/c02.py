"""C02: a torn or cut-off artifact is never loaded as something else."""
import io

import artifacts as A
import artwork as W
from amnesia import process_death
from disk import no_faults
from disk import ERRORS, draw_frac
from kernel import SimCrash, Violation, describe_exc

ID = "C02"
USES_DISK = True
RUNS = {"quick": 6400, "thorough": 120000}
RULE = ("each run: one artifact kind; 0-2 complete saves to a name, then a save cut by a crash, an I/O error or a full disk at a drawn device write and byte, then a load; "
        "then the same file cut at up to 12 drawn byte positions and loaded from path and from streams that end early; non-trivial = a cut or fault took effect")
REAL = ["all save_/load_ functions of the library", "json/rapidjson/marshal", "Python text and buffer layers"]
STUB = ["device under every opened file (SimRaw)", "clocks", "entropy"]
ASSUMPTIONS = ["damage is a lost tail (cut write, crash, full disk, short stream), not flipped bytes in the middle: the formats carry no checksum and promise none"]
PROBES = ["cut-load-raised", "cut-load-complete", "torn-by-crash", "torn-by-error", "old-content-kept", "stream-cut"]


def generate(rng, tier):
    kind = rng.choice(A.ALL)
    file = rng.randrange(3)
    pre = [dict(kind=rng.choice([kind, kind, rng.choice(A.ALL)]), seed=rng.randrange(10 ** 6), size=rng.choice([0, 1, 2, 4]), via="str") for _ in range(rng.choice([0, 1, 1, 2]))]
    f = dict(on=rng.choice(["open", "write", "write", "write", "close", "any"]), nth=rng.choice([0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 8, 20, 60]),
             kind=rng.choice(ERRORS + ["crash"] * 14), frac=draw_frac(rng))
    if f["kind"] == "ENOSPC":
        f["sticky"] = True
    op = dict(kind=kind, seed=rng.randrange(10 ** 6), size=rng.choice([0, 1, 2, 4]), via=W.pick_via_save(rng, kind), fault=f)
    sc = dict(file=file, pre=pre, cut=op, loads=[dict(via=W.pick_via_load(rng, kind)) for _ in range(2)],
                cuts=[round(rng.random(), 5) if rng.random() < 0.8 else rng.choice([0.0, 0.99999, 0.5]) for _ in range(rng.choice([4, 8, 12]))],
                tail=[rng.randrange(1, 12) for _ in range(3)],
                config=dict(write_chunk=rng.choice([None, None, 1 + rng.randrange(20), 100]), bufsize=rng.choice([None, None, 16, 256]),
                            read_chunk=rng.choice([None, None, 7, 64])))
    return A.enlarge(rng, sc, pre + [op])


def execute(sim, sc):
    disk = sim.disk
    W.shared_dirs(sim)
    op = dict(sc["cut"], file=sc["file"])
    name = W.fname(sc["file"], op["kind"])
    saved = []  # (kind, fingerprint) that are legitimate at this name
    for p in sc["pre"]:
        if A.K[p["kind"]].suffix != A.K[op["kind"]].suffix:
            continue
        k = A.K[p["kind"]]
        o = k.make(p["seed"], p["size"])
        want = k.expect(o)
        err = W.do_save(sim, dict(p, file=sc["file"]), o)
        if err is not None:
            raise Violation("save-failed", "fault-free save of %s raised %s" % (p["kind"], describe_exc(err)), "save-failed:" + p["kind"])
        saved = [(p["kind"], want)]
    k = A.K[op["kind"]]
    obj = k.make(op["seed"], op["size"])
    want = k.expect(obj)
    outcome = {}

    def client():
        disk.arm([op["fault"]])
        outcome["err"] = W.do_save(sim, op, obj)

    crashed = sim.run_tasks([("saver", client)])
    disk.disarm()
    complete = not crashed and outcome.get("err") is None
    if crashed:
        process_death()
        sim.probe("torn-by-crash")
    elif outcome.get("err") is not None:
        sim.probe("torn-by-error")
    allowed = ([] if complete else saved) + [(op["kind"], want)]
    # 1. the file as the interrupted save left it
    raw = disk.raw_read(name)
    for l in sc["loads"]:
        judge(sim, name, dict(op, via=l["via"]), allowed, "after interrupted save", raw)
    # 2. every complete file, cut
    if not complete:
        err = W.do_save(sim, dict(op, via="str"), obj)
        if err is not None:
            raise Violation("save-failed", "fault-free save of %s raised %s" % (op["kind"], describe_exc(err)), "save-failed:" + op["kind"])
    raw = disk.raw_read(name)
    if raw is None:
        raise Violation("save-wrote-nothing", "no file after a successful save of %s" % op["kind"], "nothing:" + op["kind"])
    positions = sorted({int(len(raw) * c) for c in sc["cuts"]} | {max(0, len(raw) - t) for t in sc["tail"]})
    for pos in positions:
        if pos >= len(raw):
            continue
        disk.raw_write(name, raw[:pos])
        sim.fault("cut-tail")
        judge(sim, name, dict(op, via="str"), [(op["kind"], want)], "cut at byte %d of %d" % (pos, len(raw)), raw[:pos])
        if k.load_stream:
            text = raw[:pos].decode("utf-8", "ignore")
            try:
                got, err = k.load(io.StringIO(text)), None
            except Exception as e:
                got, err = None, e
            sim.probe("stream-cut")
            verdict(sim, op["kind"], got, err, [(op["kind"], want)], "stream cut at byte %d of %d" % (pos, len(raw)), text)


def judge(sim, name, op, allowed, what, raw):
    got, err = W.do_load(sim, op)
    verdict(sim, op["kind"], got, err, allowed, what, raw)


def verdict(sim, kind, got, err, allowed, what, raw):
    sim.stats["checks"] += 1
    if err is not None:
        sim.probe("cut-load-raised")
        return
    try:
        fp = A.K[kind].got(got)
    except Exception as e:
        fp = ("not a %s" % kind, repr(type(got)))
    for akind, want in allowed:
        if A.same(want, fp, A.K[akind].rel):
            sim.probe("cut-load-complete" if akind == kind else "other")
            if len(allowed) > 1 and allowed[0] == (akind, want):
                sim.probe("old-content-kept")
            return
    # content of another kind that was completely saved there and happens to parse is not torn data
    for akind, want in allowed:
        if akind != kind and intact_other(sim, akind, raw, want):
            sim.probe("other-kind-intact")
            return
    sig = "torn-loaded:" + kind
    if sig in sim.known:
        sim.known_hits[sig] += 1
        return
    raise Violation("torn-artifact-loaded", "%s: loading %s returned %s although only %s was ever saved; file: %r" % (
        what, kind, A.brief(fp), A.brief([w for _, w in allowed]), (raw or b"")[-200:]), sig)


def intact_other(sim, akind, raw, want):
    k = A.K[akind]
    import os
    p = sim.disk.path("probe" + k.suffix)
    with no_faults(sim.disk):
        sim.disk.raw_write("probe" + k.suffix, raw if isinstance(raw, bytes) else (raw or "").encode())
        try:
            return A.same(want, k.got(k.load(p)))
        except Exception:
            return False
        finally:
            os.unlink(p)
