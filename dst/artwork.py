"""Shared workload pieces for the artifact properties (C01, C02, C03)."""
import io
import os
import pathlib

import artifacts as A
from disk import no_faults
from kernel import HarnessError, SimCrash, Violation, describe_exc

NAMES = ["a", "b", "result file", "żółw", os.path.join("sub", "a"), "results.v1", "A"]


def fname(i, kind):
    return NAMES[i % len(NAMES)] + A.K[kind].suffix


def target(disk, op, kind, name):
    """The thing handed to save/load as the file, by op['via']."""
    via = op.get("via", "str")
    if via == "rel":
        return name
    p = disk.path(name)
    if via == "pathlike":
        return pathlib.Path(p)
    return p


def pick_via_save(rng, kind):
    k = A.K[kind]
    opts = ["str", "str", "rel", "pathlike"]
    if k.save_stream:
        opts += ["stream", "stream"]
    if k.suffix == ".data":
        opts = ["str", "rel"]
    return rng.choice(opts)


def pick_via_load(rng, kind):
    k = A.K[kind]
    opts = ["str", "str", "rel"]
    if k.load_stream:
        opts += ["stream", "stringio"]
    if k.load_pathlike:
        opts += ["pathlike"]
    return rng.choice(opts)


def do_save(sim, op, obj):
    """Returns None on success or the exception."""
    kind = A.K[op["kind"]]
    name = op.get("name") or fname(op["file"], op["kind"])
    via = op.get("via", "str")
    try:
        if via == "stream":
            f = open(sim.disk.path(name), "w", encoding="utf-8")
            try:
                kind.save(obj, f)
                if f.closed:
                    raise Violation("caller-stream-closed", "save of %s closed the caller's stream" % op["kind"], "stream-closed:" + op["kind"])
            finally:
                f.close()
        elif via == "rel" and kind.suffix == ".data":
            kind.save(obj, os.path.join(os.curdir, name))
        else:
            kind.save(obj, target(sim.disk, op, kind, name))
    except Exception as e:
        return e
    return None


def do_load(sim, op):
    """Returns (object, None) or (None, exception)."""
    kind = A.K[op["kind"]]
    name = op.get("name") or fname(op["file"], op["kind"])
    via = op.get("via", "str")
    try:
        if via == "stream":
            f = open(sim.disk.path(name), "r", encoding="utf-8")
            try:
                r = kind.load(f)
                if f.closed:
                    raise Violation("caller-stream-closed", "load of %s closed the caller's stream" % op["kind"], "stream-closed:" + op["kind"])
            finally:
                f.close()
            return r, None
        if via == "stringio":
            with open(sim.disk.path(name), "r", encoding="utf-8") as f:
                s = io.StringIO(f.read())
            r = kind.load(s)
            if s.closed:
                raise Violation("caller-stream-closed", "load of %s closed the caller's stream" % op["kind"], "stream-closed:" + op["kind"])
            return r, None
        if via == "rel" and kind.suffix == ".data":
            return kind.load(os.path.join(os.curdir, name)), None
        return kind.load(target(sim.disk, op, kind, name)), None
    except Exception as e:
        return None, e


def quiet_load(sim, kind, name):
    """Load with all devices perfect and no scheduling (harness side)."""
    with no_faults(sim.disk):
        try:
            return A.K[kind].load(sim.disk.path(name)), None
        except Exception as e:
            return None, e


def shared_dirs(sim):
    sub = sim.disk.path("sub")
    if not os.path.isdir(sub):
        os.mkdir(sub)
