"""C17: a killed workflow step can be rerun as if it had never run."""
import json
import os
import random

import numpy as np

import artifacts as A
import steps17 as S
import stepstubs
from amnesia import process_death
from disk import no_faults
from disk import ERRORS, draw_frac
from kernel import describe_exc

ID = "C17"
USES_DISK = True
RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("each run: a workflow of 1-4 drawn steps (of %d) in one directory, inputs given as files, objects or outputs of earlier steps; each step first runs once undisturbed in an empty directory (reference), then with left-over files of other runs "
        "in up to three attempts killed or hit by an I/O error at a drawn file operation or by a device failure, then once more; sometimes two steps with different outputs run interleaved; non-trivial = a fault was injected or the steps interleaved" % len(S.NAMES))
REAL = ["all functions of steps/*.py", "everything they call in the library", "JSON writing and reading", "Python text and buffer layers"]
STUB = ["device under every opened file (SimRaw)", "quantum device and optimizer named in the specifications", "process death and restart", "clocks", "entropy"]
ASSUMPTIONS = ["a step's input files are not named like its outputs", "steps run at the same time in one directory have different outputs", "unseeded random steps are judged by the form of their output only"]
PROBES = ["crash", "error-surfaced", "device-failed", "rerun", "leftover-torn", "leftover-other", "leftover-former", "chained", "objects", "interleaved", "two-outputs", "tracked"]


def generate(rng, tier):
    stages = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        names = [rng.choice(S.NAMES)]
        if rng.random() < 0.25:
            names.append(rng.choice(S.NAMES))
        attempts = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            x = rng.random()
            f = dict(nth=rng.choice([0, 0, 1, 2, 3, 5, 8, 13]), frac=draw_frac(rng), who=rng.randrange(2))
            if x < 0.5:
                f.update(on=rng.choice(["any", "any", "open", "write", "write", "read", "close", "meta"]), kind="crash")
            elif x < 0.87:
                f.update(on=rng.choice(["any", "open", "write", "write", "read", "close", "meta"]), kind=rng.choice(ERRORS))
            else:
                f.update(on="device", kind="device", nth=rng.choice([0, 0, 1]))
            attempts.append(f)
        stages.append(dict(names=names, seeds=[rng.randrange(10 ** 6) for _ in names], attempts=attempts, left=rng.choice(["none", "none", "torn", "other", "empty", "long", "former", "former"]), fseed=rng.randrange(10 ** 6)))
    return dict(stages=stages, sched=[rng.randrange(2) if rng.random() < 0.5 else 0 for _ in range(rng.choice([0, 60]))],
                config=dict(write_chunk=rng.choice([None, None, 1 + rng.randrange(40), 200]), bufsize=rng.choice([None, None, 16, 64, 512]), read_chunk=rng.choice([None, None, 7])))


def execute(sim, sc):
    disk = sim.disk
    stepstubs.SIM[0] = sim
    sim.device_fail = None
    artifacts = {}
    boot = [0]

    def fresh_process():
        boot[0] += 1
        process_death()
        random.seed(1000 + boot[0])
        np.random.seed(1000 + boot[0])

    def load(name, out):
        with no_faults(disk):
            if out.kind == "json":
                return A.json_load(disk.path(name))
            return A.K[out.kind].load(disk.path(name))

    def content(step, outs, when):
        for name, out in outs.items():
            raw = disk.raw_read(name)
            sim.check(raw is not None, "output-missing", lambda: "%s %s, but there is no %s" % (step, when, name), "missing:%s" % step)
            try:
                got = load(name, out)
            except Exception as e:
                sim.violate("output-unreadable", "%s %s, but %s cannot be read: %s" % (step, when, name, describe_exc(e)), "unreadable:%s" % step)
            if out.pred is not None:
                try:
                    msg = out.pred(got)
                except Exception as e:
                    msg = "unexpected content %s (%s)" % (A.brief(got), describe_exc(e))
            else:
                k = A.K[out.kind]
                x, y = k.got(got), k.expect(out.expect)
                msg = None if A.same(x, y) else "%s instead of %s" % (A.brief(x), A.brief(y))
            sim.check(msg is None, "output-wrong", lambda: "%s %s with %s in %s" % (step, when, msg, name), "content:%s" % step)

    def inputs_same(step, I, when, objects):
        for name, raw in I.files.items():
            sim.check(disk.raw_read(name) == raw, "input-file-changed", lambda: "%s %s and left its input file %s changed: %s, was %s" % (step, when, name, A.brief(disk.raw_read(name)), A.brief(raw)), "input-file:%s" % step)
        if objects:
            for o, was in I.objects:
                sim.check(A.same(S.keep(o), was), "input-object-changed", lambda: "%s %s and left an argument changed: %s, was %s" % (step, when, A.brief(S.keep(o)), A.brief(was)), "input-object:%s" % step)

    def build(k, j, step, seed):
        with no_faults(disk):
            I = S.Inputs(sim, disk, "s%d%s" % (k, "ab"[j]), artifacts)
            kw, outs = S.STEPS[step](I, random.Random(seed))
        return I, kw, outs

    def snapshot(outs):
        return {n: disk.raw_read(n) for n in outs}

    def equal_json(a, b):
        try:
            return A.same(json.loads(a), json.loads(b))
        except ValueError:
            return a == b

    for k, stage in enumerate(sc["stages"]):
        steps = list(zip(stage["names"], stage["seeds"]))
        refs = []
        taken = set()
        for j, (step, seed) in enumerate(steps):
            # the reference: undisturbed, in a directory without outputs of earlier runs
            before = {n: disk.raw_read(n) for n in disk.names()}
            former = {}
            if stage["left"] == "former":
                # a former run of the same step with other inputs, whose outputs are still there later
                I, kw, outs = build(k, j, step, stage["fseed"])
                if not taken & set(outs):
                    fresh_process()
                    sim.log("former", step)

                    def other():
                        try:
                            S.fn(step)(**kw)
                        except Exception:
                            pass
                    sim.run_tasks([("former", other)])
                    former = snapshot(outs)
                    sim.probe("leftover-former")
                for n in set(disk.names()) - set(before):
                    with no_faults(disk):
                        os.unlink(disk.path(n))
            I, kw, outs = build(k, j, step, seed)
            if taken & set(outs):
                steps = steps[:j]
                break
            taken |= set(outs)
            for n in list(before):
                if n not in I.files and not n.startswith("a"):
                    with no_faults(disk):
                        disk.raw_write(n, b"")
                        os.unlink(disk.path(n))
            fresh_process()
            sim.log("reference", step)
            err = []

            def plain():
                try:
                    S.fn(step)(**kw)
                except Exception as e:
                    err.append(e)
            sim.run_tasks([("ref", plain)])
            sim.stats["steps"] += 1
            if err:
                sim.violate("step-failed", "%s(%s) failed with no fault: %s" % (step, A.brief(kw), describe_exc(err[0])), "failed:%s" % step)
            content(step, outs, "returned")
            inputs_same(step, I, "returned", True)
            if I.objects:
                sim.probe("objects")
            if I.chained:
                sim.probe("chained")
            if len(outs) > 1:
                sim.probe("two-outputs")
            if "raw-data.json" in outs:
                sim.probe("tracked")
            refs.append((I, outs, snapshot(outs)))
            # back to the directory as it was, with left-overs under the names of the outputs
            with no_faults(disk):
                for n in outs:
                    raw = refs[j][2][n]
                    if stage["left"] == "torn":
                        disk.raw_write(n, raw[:len(raw) // 2])
                    elif stage["left"] == "other":
                        disk.raw_write(n, b'{"schema": "something-else", "list": [1, 2, 3]}')
                    elif stage["left"] == "long":
                        disk.raw_write(n, raw + b" " + raw * 3)
                    elif stage["left"] == "empty":
                        disk.raw_write(n, b"")
                    elif former.get(n) is not None:
                        disk.raw_write(n, former[n])
                    else:
                        os.unlink(disk.path(n))
                for n, raw in before.items():
                    if n not in outs and disk.raw_read(n) is None:
                        disk.raw_write(n, raw)
            if stage["left"] != "none":
                sim.probe("leftover-torn" if stage["left"] in ("torn", "empty") else "leftover-other")
        done = [False] * len(steps)
        for attempt in list(stage["attempts"]) + [None]:
            fresh_process()
            todo = [j for j in range(len(steps)) if not done[j]]
            if not todo:
                break
            calls = {}
            for j in todo:
                calls[j] = build(k, j, *steps[j])
            result = {}

            def run(j):
                def go():
                    I, kw, outs = calls[j]
                    t = sim.current
                    t.local.pop("fired", None)
                    if attempt is not None and attempt["kind"] != "device" and attempt["who"] % len(steps) == j:
                        disk.arm([attempt])
                    try:
                        S.fn(steps[j][0])(**kw)
                        result[j] = ("returned", None)
                    except Exception as e:
                        result[j] = ("raised", e)
                    result[j] += (t.local.pop("fired", []),)
                    disk.disarm()
                    left = disk.open_handles(t)
                    sim.check(not left, "handle-leaked", lambda: "%s left open %s" % (steps[j][0], [h._path for h in left]), "leak:%s" % steps[j][0])
                return go
            faults_before = sim.faults["device"]
            sim.device_fail = attempt["nth"] if attempt is not None and attempt["kind"] == "device" else None
            switches = sim.switches
            crashed = sim.run_tasks([("s%d%s" % (k, "ab"[j]), run(j)) for j in todo])
            sim.device_fail = None
            device = sim.faults["device"] > faults_before
            if device:
                sim.probe("device-failed")
            if sim.switches > switches:
                sim.probe("interleaved")
            if crashed:
                sim.probe("crash")
            if attempt is None and stage["attempts"]:
                sim.probe("rerun")
            for j in todo:
                step = steps[j][0]
                I, kw, outs = calls[j]
                inputs_same(step, I, "was killed" if crashed and j not in result else "ran", j in result)
                if j not in result:
                    continue
                status, e, fired = result[j]
                if status == "raised":
                    if crashed and not fired and not device:
                        continue
                    sim.check(bool(fired) or device, "step-failed", lambda: "%s(%s) failed%s: %s" % (step, A.brief(kw), " when run again" if boot[0] > 1 else "", describe_exc(e)), "failed:%s" % step)
                    sim.probe("error-surfaced")
                else:
                    if fired:
                        sim.probe("recovered-inside")
                    content(step, outs, "returned%s" % (" in spite of %s" % fired if fired else ""))
                    ref = refs[j][2]
                    if step not in S.UNSEEDED and step not in S.ITERATIVE:
                        for n in outs:
                            if n not in S.VOLATILE:
                                now = disk.raw_read(n)
                                sim.check(equal_json(now, ref[n]), "output-differs", lambda: "%s wrote %s to %s after an interrupted attempt or with left-over files, but %s in an empty directory" % (step, A.brief(now), n, A.brief(ref[n])), "differs:%s" % step)
                    # a step killed together with its neighbour after finishing is not run again
                    done[j] = True
        sim.check(all(done), "not-finished", lambda: "%s did not finish" % [s for s, d in zip(steps, done) if not d], "not-finished")
        # finished steps hand over their outputs
        for j, (step, _) in enumerate(steps):
            for n, out in refs[j][1].items():
                if out.kind == "json" or step in S.UNSEEDED:
                    continue
                name = "a%d%d-%s" % (k, j, n)
                raw = disk.raw_read(n)
                if raw is None:
                    continue
                disk.raw_write(name, raw)
                obj = load(name, out)
                artifacts.setdefault(out.kind, []).append((name, obj))
        # neighbours did not disturb each other's outputs
        for j, (step, _) in enumerate(steps):
            content(step, refs[j][1], "finished")
