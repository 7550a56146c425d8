"""Seeded search, minimisation, replay and evidence.

    runner.py check PROP            quick or thorough batch (VERIF_TIER, VERIF_SEED)
    runner.py replay FILE           re-execute a replay file, print the violation
    runner.py digest PROP N W       event-log digests of N seeds (determinism self-test)
    runner.py one PROP SEED         run one seed verbosely
"""
import collections
import copy
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import amnesia  # noqa: E402
import kernel  # noqa: E402
from kernel import HarnessError, Patches, Sim, SimCrash, Violation  # noqa: E402

PERF = time.perf_counter
WORKERS = int(os.environ.get("DST_WORKERS", "8"))


def mix(*xs):
    h = hashlib.blake2b(repr(xs).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big")


def load_prop(pid):
    return importlib.import_module("props.%s" % pid.lower())


# ------------------------------------------------------------- known findings
def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


# ---------------------------------------------------------------- one run
class Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise Timeout("run exceeded its wall limit")


REPO = os.path.join(os.environ.get("DST_REPO", "/repo"), "")
RUN_LIMIT = 60.0   # processor seconds of one run
WALL_LIMIT = 300.0  # and a much larger wall limit, for code that blocks


def in_library(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO):
            return True
        tb = tb.tb_next
    return False


class RunResult:
    __slots__ = ("violation", "digest", "shape", "nontrivial", "stats", "faults", "probes", "sim_time",
                 "switches", "harness", "tail", "known", "sample")


_SCRATCH = None


def scratch():
    global _SCRATCH
    if _SCRATCH is None or not os.path.isdir(_SCRATCH):
        import disk
        _SCRATCH = disk.scratch_root()
    return _SCRATCH


def drop_scratch():
    global _SCRATCH
    if _SCRATCH and os.path.isdir(_SCRATCH):
        shutil.rmtree(_SCRATCH, ignore_errors=True)
    _SCRATCH = None


def run_scenario(prop, scenario, seed=None, keep_log=False, known=()):
    """Execute one scenario; a pure function of (scenario, code under test)."""
    r = RunResult()
    sim = Sim(scenario, seed)
    sim.keep_log = keep_log
    sim.known = {k["signature"]: k for k in known}
    sim.known_hits = collections.Counter()
    patches = Patches()
    cwd = os.getcwd()
    r.violation = r.harness = None
    rstate = random.getstate()
    nstate = kernel.np.random.get_state()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, RUN_LIMIT)
    try:
        amnesia.process_death()  # every run starts in a fresh process
        disk = None
        if getattr(prop, "USES_DISK", False):
            import disk as diskmod
            root = os.path.join(scratch(), "d")
            shutil.rmtree(root, ignore_errors=True)
            os.mkdir(root)
            disk = diskmod.Disk(sim, root)
            os.chdir(root)
            disk.install()
        kernel.install_world(sim, patches, scenario.get("world", 1))
        try:
            with kernel.quiet_stdout():
                prop.execute(sim, scenario)
        finally:
            if disk is not None:
                disk.die()
                disk.revive()
                disk.uninstall()
            patches.undo()
    except Violation as v:
        r.violation = dict(kind=v.kind, detail=str(v.detail)[:4000], sig=v.sig)
    except SimCrash:
        r.harness = "SimCrash escaped:\n" + traceback.format_exc()
    except Timeout as e:
        # the run hangs: the library's fault if the library was running
        if in_library(e):
            r.violation = dict(kind="hang", detail=traceback.format_exc()[-3500:], sig="hang")
        else:
            r.harness = traceback.format_exc()
    except HarnessError:
        r.harness = traceback.format_exc()
    except Exception as e:
        # an error nobody asked for, out of a library call
        if in_library(e):
            r.violation = dict(kind="unexpected-exception", detail=traceback.format_exc()[-3500:], sig="exception:" + type(e).__name__)
        else:
            r.harness = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(cwd)
        random.setstate(rstate)
        kernel.np.random.set_state(nstate)
    if r.violation and r.violation["sig"] in sim.known:
        sim.known_hits[r.violation["sig"]] += 1
        r.violation = None
    r.known = dict(sim.known_hits)
    r.digest = sim.digest()
    r.shape = sim.shape_h.hexdigest()
    r.nontrivial = bool(sim.nontrivial)
    r.stats = dict(sim.stats)
    r.faults = dict(sim.faults)
    r.probes = dict(sim.probes)
    r.sim_time = sim.clock.true
    r.switches = sim.switches
    r.tail = list(sim.full_log if keep_log else sim.log_tail)
    return r


def make_scenario(prop, seed, tier):
    rng = random.Random(mix("scenario", prop.ID, seed))
    sc = prop.generate(rng, tier)
    sc.setdefault("config", {})
    sc.setdefault("sched", [])
    sc["world"] = rng.getrandbits(32)
    return json.loads(json.dumps(sc))


# -------------------------------------------------------------- worker pool


def worker_main(prop, tier, base_seed, wid, nworkers, nruns, deadline, out, known, redo_every):
    """Runs seeds wid, wid+nworkers, ... in order; streams results as pickles."""
    agg = dict(runs=0, nontrivial=0, shapes=set(), stats=collections.Counter(), faults=collections.Counter(),
               fault_runs=collections.Counter(), probes=collections.Counter(), sim_time=0.0, switches=0, known=collections.Counter(),
               redo=0, redo_mismatch=0, samples=[], digests=[], faulty_runs=0, switched_runs=0)
    result = None
    for k in range(wid, nruns, nworkers):
        if PERF() > deadline:
            break
        seed = mix(base_seed, k)
        sc = None
        sc = make_scenario(prop, seed, tier)
        r = run_scenario(prop, sc, seed, known=known)
        agg["runs"] += 1
        agg["digests"].append((k, r.digest))
        if r.harness:
            result = dict(kind="harness", text="run %d (seed %d)\n%s\n%s" % (k, seed, r.harness, "\n".join(r.tail[-15:])), k=k)
            break
        agg["stats"].update(r.stats)
        agg["faults"].update(r.faults)
        for f in r.faults:
            agg["fault_runs"][f] += 1
        agg["probes"].update({p: 1 for p in r.probes})
        agg["sim_time"] += r.sim_time
        agg["switches"] += r.switches
        agg["known"].update(r.known)
        if r.faults:
            agg["faulty_runs"] += 1
        if r.switches:
            agg["switched_runs"] += 1
        if r.nontrivial:
            agg["nontrivial"] += 1
            agg["shapes"].add(r.shape)
            if len(agg["samples"]) < 2 and k >= nruns // 3:
                agg["samples"].append(dict(run=k, seed=seed, scenario=sc, log=r.tail[:40], faults=r.faults))
        if r.violation:
            result = dict(kind="violation", violation=r.violation, k=k, seed=seed, scenario=sc, tail=r.tail)
            break
        if redo_every and agg["runs"] % redo_every == 0:
            r2 = run_scenario(prop, sc, seed, known=known)
            agg["redo"] += 1
            if r2.digest != r.digest or r2.violation or r2.harness:
                agg["redo_mismatch"] += 1
        if agg["runs"] % 200 == 0:
            gc.collect()
    drop_scratch()
    data = pickle.dumps(dict(agg=agg, result=result, wid=wid))
    with os.fdopen(out, "wb") as f:
        f.write(data)


def run_pool(prop, tier, base_seed, nruns, wall, known, redo_every=50, nworkers=None):
    nworkers = nworkers or WORKERS
    deadline = PERF() + wall
    kids = []
    for w in range(nworkers):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rfd)
                worker_main(prop, tier, base_seed, w, nworkers, nruns, deadline, wfd, known, redo_every)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(wfd)
        kids.append((pid, rfd, w))
    outs = []
    errors = []
    bufs = {rfd: [] for _, rfd, _ in kids}
    open_fds = set(bufs)
    hard = wall + 180
    t0 = PERF()
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [], 5.0)
        for fd in ready:
            b = os.read(fd, 1 << 20)
            if b:
                bufs[fd].append(b)
            else:
                open_fds.discard(fd)
        if PERF() - t0 > hard:
            for pid, rfd, w in kids:
                if rfd in open_fds:
                    os.kill(pid, signal.SIGKILL)
                    errors.append("worker %d killed after %d s" % (w, hard))
            break
    for pid, rfd, w in kids:
        os.close(rfd)
        _, status = os.waitpid(pid, 0)
        data = b"".join(bufs[rfd])
        if status != 0 or not data:
            errors.append("worker %d ended with status %d" % (w, status))
            continue
        outs.append(pickle.loads(data))
    return outs, errors


# ------------------------------------------------------------- minimisation
def _paths(node, path=()):
    """All list nodes of the scenario, outermost first."""
    if isinstance(node, list):
        yield path
        for i, x in enumerate(node):
            yield from _paths(x, path + (i,))
    elif isinstance(node, dict):
        for k in sorted(node):
            if k in ("world", "keep_log"):
                continue
            yield from _paths(node[k], path + (k,))


def _get(node, path):
    for p in path:
        node = node[p]
    return node


def minimise(prop, scenario, sig, known, prelude, budget=45.0, runs=1500):
    """Greedy delta debugging over every list, fault, schedule entry and size."""
    end = PERF() + budget
    n = [0]

    def still(sc, pre=prelude):
        n[0] += 1
        try:
            for p in pre:
                run_scenario(prop, p, known=known)
            r = run_scenario(prop, sc, known=known)
        except (Exception, HarnessError):
            return False
        return r.violation is not None and r.violation["sig"] == sig

    def ok():
        return PERF() < end and n[0] < runs

    cur = copy.deepcopy(scenario)
    # 0. drop the prelude (earlier runs in the same process), if any
    if prelude:
        chunk = len(prelude)
        while chunk >= 1 and ok():
            i = 0
            while i < len(prelude) and ok():
                cand = prelude[:i] + prelude[i + chunk:]
                if still(cur, cand):
                    prelude = cand
                else:
                    i += chunk
            chunk //= 2
    changed = True
    while changed and ok():
        changed = False
        for path in sorted(_paths(cur), key=len):
            try:
                lst = _get(cur, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            if path and path[-1] in getattr(prop, "NO_SHRINK", ()):
                continue
            chunk = max(1, len(lst) // 2)
            while chunk >= 1 and ok() and lst:
                i = 0
                while i < len(lst) and ok():
                    cand = copy.deepcopy(cur)
                    cl = _get(cand, path)
                    del cl[i:i + chunk]
                    if still(cand):
                        cur = cand
                        lst = _get(cur, path)
                        changed = True
                    else:
                        i += chunk
                chunk //= 2
        # drop faults, zero schedule entries, shrink sizes
        def visit(node, path):
            nonlocal cur, changed
            if not ok():
                return
            if isinstance(node, dict):
                for k in sorted(node):
                    v = node[k]
                    if k in ("fault", "faults") and v:
                        cand = copy.deepcopy(cur)
                        _get(cand, path)[k] = [] if isinstance(v, list) else None
                        if still(cand):
                            cur = cand
                            changed = True
                            continue
                    if k in ("size", "n", "nth", "repeat", "write_chunk", "read_chunk", "width") and isinstance(v, int) and v > 0:
                        for nv in (0, 1, v // 2, v - 1):
                            if nv >= v or nv < 0:
                                continue
                            cand = copy.deepcopy(cur)
                            _get(cand, path)[k] = nv
                            if ok() and still(cand):
                                cur = cand
                                changed = True
                                break
                        continue
                    visit(v, path + (k,))
            elif isinstance(node, list):
                for i, x in enumerate(node):
                    if path and path[-1] == "sched":
                        if x:
                            cand = copy.deepcopy(cur)
                            _get(cand, path)[i] = 0
                            if ok() and still(cand):
                                cur = cand
                                changed = True
                    else:
                        visit(x, path + (i,))
        try:
            visit(copy.deepcopy(cur), ())
        except (KeyError, IndexError, TypeError):
            changed = True
    while cur.get("sched") and cur["sched"][-1] == 0:
        cur["sched"].pop()
    return cur, prelude, n[0]


def in_child(fn, wall):
    """Run fn() in a forked child with a wall limit; returns its (pickled) result."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            res = fn()
            drop_scratch()
            with os.fdopen(wfd, "wb") as f:
                f.write(pickle.dumps(res))
            os._exit(0)
        except BaseException:
            traceback.print_exc()
            os._exit(3)
    os.close(wfd)
    chunks = []
    end = PERF() + wall
    while True:
        ready, _, _ = select.select([rfd], [], [], max(0.1, end - PERF()))
        if not ready:
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(rfd, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(rfd)
    os.waitpid(pid, 0)
    data = b"".join(chunks)
    try:
        return pickle.loads(data) if data else None
    except Exception:
        return None


def write_replay(prop, res, tier, base_seed, known):
    """Minimise a violation and write its replay file; returns the path."""
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%d.json" % (prop.ID, res["seed"]))
    sig = res["violation"]["sig"]

    def attempt_fresh():
        r = run_scenario(prop, res["scenario"], known=known)
        return r.violation is not None and r.violation["sig"] == sig

    fresh = in_child(attempt_fresh, 60)
    prelude = []
    if not fresh:
        # depends on earlier runs in the same process: replay those too
        prelude = [make_scenario(prop, mix(base_seed, k), tier) for k in range(res["k"] % WORKERS, res["k"], WORKERS)]
    m = in_child(lambda: minimise(prop, res["scenario"], sig, known, prelude), 130)
    if m is None:
        sc, pre, n = res["scenario"], prelude, 0
    else:
        sc, pre, n = m

    def final():
        for p in pre:
            run_scenario(prop, p, known=known)
        r = run_scenario(prop, sc, keep_log=True, known=known)
        return r.violation, r.tail, r.digest

    f = in_child(final, 60)
    doc = dict(property=prop.ID, seed=res["seed"], run=res["k"], base_seed=base_seed, tier=tier, violation=(f and f[0]) or res["violation"],
               minimiser_runs=n, prelude=pre, scenario=sc, original_scenario=res["scenario"],
               trace=f[1] if f else res["tail"], digest=f[2] if f else None)
    with open(path, "w") as out:
        json.dump(doc, out, indent=1)
    return path


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    prop = load_prop(doc["property"])
    known = known_findings(prop.ID)
    for p in doc.get("prelude", []):
        run_scenario(prop, p, known=known)
    r = run_scenario(prop, doc["scenario"], keep_log=True, known=known)
    drop_scratch()
    if r.harness:
        print("HARNESS ERROR\n" + r.harness)
        return 2
    if r.violation is None:
        print("no violation on this tree")
        return 0
    print("digest %s (recorded %s)" % (r.digest, doc.get("digest")))
    print("\n".join(r.tail[-60:]))
    print("%s: %s" % (r.violation["sig"], r.violation["detail"]))
    print("VIOLATION property=%s replay=%s" % (prop.ID, path))
    return 1


# ----------------------------------------------------------------- evidence
def evidence(prop, tier, seed, outs, wall, violations, planned, extra=None):
    tot = collections.Counter()
    shapes = set()
    stats, faults, fault_runs, probes, known = (collections.Counter() for _ in range(5))
    sim_time = 0.0
    samples = []
    for o in outs:
        a = o["agg"]
        for k in ("runs", "nontrivial", "switches", "redo", "redo_mismatch", "faulty_runs", "switched_runs"):
            tot[k] += a[k]
        shapes |= a["shapes"]
        stats.update(a["stats"])
        faults.update(a["faults"])
        fault_runs.update(a["fault_runs"])
        probes.update(a["probes"])
        known.update(a["known"])
        sim_time += a["sim_time"]
        samples += a["samples"]
    cov = dict(
        evaluations=tot["runs"], distinct_nontrivial=len(shapes),
        rule=prop.RULE,
        samples=samples[:3] or [dict(note="no non-trivial run finished")],
        planned_runs=planned,
        simulated_runs_per_hour=int(tot["runs"] / max(wall, 1e-9) * 3600),
        seeds_per_hour=int(tot["runs"] / max(wall, 1e-9) * 3600),
        simulated_seconds=round(sim_time, 3),
        faults_injected=dict(sorted(faults.items())),
        runs_with_fault_kind=dict(sorted(fault_runs.items())),
        runs_with_faults=tot["faulty_runs"], runs_fault_free=tot["runs"] - tot["faulty_runs"],
        runs_with_client_switches=tot["switched_runs"], client_switches=tot["switches"],
        seam_events=stats.get("events", 0), oracle_checks=stats.get("checks", 0),
        distinct_measure="hash of the sequence of (client, seam event) and injected faults of a run; only non-trivial runs are counted",
        probes={p: probes.get(p, 0) for p in sorted(set(getattr(prop, "PROBES", ())) | set(probes))},
        probes_stuck_at_zero=sorted(p for p in getattr(prop, "PROBES", ()) if not probes.get(p)),
        operations={k: v for k, v in sorted(stats.items()) if k not in ("events", "checks")},
        reexecuted_for_determinism=tot["redo"], determinism_mismatches=tot["redo_mismatch"],
        workers=WORKERS, real_components=prop.REAL, stubbed_components=prop.STUB,
        known_findings_hit=dict(known),
    )
    if extra:
        cov.update(extra)
    doc = dict(property=prop.ID, tier=tier, seed=seed, level="exploration", coverage=cov,
               assumptions=prop.ASSUMPTIONS, wall_s=round(wall, 2), violations=violations)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop.ID)
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % prop.ID))


def check(pid):
    t0 = PERF()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    print("property %s tier %s seed %d" % (pid, tier, seed), flush=True)
    try:
        prop = load_prop(pid)
    except BaseException:
        traceback.print_exc()
        return 2
    known = known_findings(pid)
    nruns = prop.RUNS[tier]
    nruns = int(os.environ.get("DST_RUNS", nruns))
    wall = float(os.environ.get("DST_WALL", {"quick": 300, "thorough": 3000}[tier]))
    # known findings are demonstrated afresh on every run
    shown = []
    for k in known:
        if k.get("scenario") is None:
            continue
        r = run_scenario(prop, json.loads(json.dumps(k["scenario"])), known=known)
        if r.harness:
            print("HARNESS ERROR in known finding %s\n%s" % (k["signature"], r.harness))
            return 2
        if k["signature"] in r.known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            shown.append(k["signature"])
        else:
            print("note: known finding no longer reproduces: %s" % k["signature"])
    drop_scratch()
    outs, errors = run_pool(prop, tier, seed, nruns, wall, known)
    viol = [o["result"] for o in outs if o["result"] and o["result"]["kind"] == "violation"]
    harn = [o["result"] for o in outs if o["result"] and o["result"]["kind"] == "harness"]
    runs = sum(o["agg"]["runs"] for o in outs)
    code = 0
    if viol:
        viol.sort(key=lambda v: v["k"])
        v = viol[0]
        print("violation found in run %d seed %d: %s: %s" % (v["k"], v["seed"], v["violation"]["sig"], v["violation"]["detail"]), flush=True)
        if os.environ.get("DST_FIRST"):
            print("VIOLATION first")
            return 1
        path = write_replay(prop, v, tier, seed, known)
        p = subprocess.run([sys.executable, os.path.join(HERE, "runner.py"), "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        same = p.returncode == 1
        print("replay in a fresh process: %s" % ("same violation" if same else "NOT reproduced (exit %d)" % p.returncode))
        if not same:
            print(p.stdout[-3000:])
        evidence(prop, tier, seed, outs, PERF() - t0, len(viol), nruns)
        with open(path) as f:
            doc = json.load(f)
        print("minimised to: %s" % json.dumps(doc["scenario"])[:3000])
        print("%s" % doc["violation"]["detail"][:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    evidence(prop, tier, seed, outs, PERF() - t0, 0, nruns, dict(known_findings_shown=shown))
    if harn or errors:
        for h in harn[:2]:
            print("HARNESS ERROR " + h["text"])
        for e in errors:
            print("HARNESS ERROR " + e)
        return 2
    if runs < max(1, min(nruns, getattr(prop, "MIN_RUNS", 50))):
        print("HARNESS ERROR only %d of %d runs finished" % (runs, nruns))
        return 2
    mism = sum(o["agg"]["redo_mismatch"] for o in outs)
    print("%s: %d runs (of %d), %d distinct non-trivial, no violation, %.1f s; %d re-executed, %d differed" % (
        pid, runs, nruns, len(set().union(*[o["agg"]["shapes"] for o in outs])) if outs else 0, PERF() - t0,
        sum(o["agg"]["redo"] for o in outs), mism))
    return code


def digest(pid, n, w):
    prop = load_prop(pid)
    known = known_findings(pid)
    outs, errors = run_pool(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")), n, 3000, known, 0, w)
    for o in outs:
        if o["result"]:
            print(json.dumps(o["result"], default=str)[:2000])
    ds = sorted(d for o in outs for d in o["agg"]["digests"])
    for k, d in ds:
        print(k, d)
    for e in errors:
        print("ERR", e)


def one(pid, k):
    prop = load_prop(pid)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = mix(int(os.environ.get("VERIF_SEED", "1")), k)
    sc = make_scenario(prop, seed, tier)
    print(json.dumps(sc)[:6000])
    r = run_scenario(prop, sc, seed, keep_log=True, known=known_findings(pid))
    print("\n".join(r.tail[-100:]))
    print("violation", r.violation, "\nharness", r.harness, "\nfaults", r.faults, "probes", r.probes, "known", r.known)
    drop_scratch()


if __name__ == "__main__":
    import warnings
    warnings.simplefilter("ignore")
    cmd = sys.argv[1]
    if cmd == "check":
        rc = check(sys.argv[2])
        sys.stdout.flush()
        os._exit(rc)
    elif cmd == "replay":
        sys.exit(replay(sys.argv[2]))
    elif cmd == "digest":
        digest(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
    elif cmd == "one":
        one(sys.argv[2], int(sys.argv[3]))
