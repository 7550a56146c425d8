"""Scripted cost functions: yield at every evaluation, fail on request, store artifacts."""
import copy
import functools

import numpy as np

from kernel import injected
from zquantum.core.utils import ValueEstimate
from zquantum.core.interfaces.functions import function_with_gradient


def near(rng, last, fresh):
    """A number: a fresh one, or now and then the last one again, or one that differs from it by very little."""
    x = rng.random()
    if last is None or x < 0.75:
        return fresh
    return last if x < 0.82 else last + rng.choice([1, -1]) * rng.choice([1e-5, 1e-7, 1e-9, 1e-12])


def value_of(params, scale=1.0, vtype="float"):
    p = np.asarray(params, dtype=float).ravel()
    v = float(scale * (np.sum(p * p) + 0.25 * np.sum(p)))
    if vtype == "estimate":
        return ValueEstimate(v, round(abs(v) / 7 + 0.125, 6))
    if vtype == "no-precision":
        return ValueEstimate(v)
    if vtype == "np":
        return np.float64(v)
    if vtype == "int":
        return int(v)
    if vtype == "wild":
        return [v, float("nan"), float("inf"), -0.0][int(abs(v) * 10) % 4]
    return v


def grad_of(params, scale=1.0, vtype="float"):
    p = np.asarray(params, dtype=float)
    g = scale * (2 * p + 0.25)
    return g.astype(np.float32) if vtype == "np" else g


def exact(a, b):
    """Equality of kind and content: nothing may be rounded, converted or stripped on the way."""
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    if isinstance(a, ValueEstimate) and not exact(a.precision, b.precision):
        return False
    if isinstance(a, float):
        return float.__repr__(float(a)) == float.__repr__(float(b))
    return a == b


class Script:
    """Shared state of one scripted function."""

    def __init__(self, sim, spec):
        self.sim = sim
        self.name = spec.get("name", "f")
        self.fail = set(spec.get("fail", ()))
        self.gfail = set(spec.get("gfail", ()))
        self.arts = spec.get("arts", [])
        self.calls = 0
        self.gcalls = 0
        self.done = []    # (kind, params, value) of successful evaluations, in completion order
        self.raised = []
        self.yields = spec.get("yields", True)
        self.vtype = spec.get("vtype", "float")
        self.reuse = spec.get("reuse", False)
        self.buffers = {}

    def __deepcopy__(self, memo):
        s = copy.copy(self)
        s.done = list(self.done)
        s.buffers = {}
        s.raised = list(self.raised)
        return s

    def run(self, kind, params, scale, store):
        i = self.calls if kind == "f" else self.gcalls
        if kind == "f":
            self.calls += 1
        else:
            self.gcalls += 1
        at = copy.deepcopy(params)
        if self.yields:
            self.sim.event("eval", "%s %s%d" % (self.name, kind, i))
        stored = {}
        if store is not None and self.arts:
            for name, val, force in self.arts[i % len(self.arts)]:
                v = [val, i]
                if force is None:
                    store(name, v)
                else:
                    store(name, v, force=force)
                stored[name] = (v, bool(force) or stored.get(name, (0, False))[1])
                if self.yields:
                    self.sim.event("artifact", name)
        if i in (self.fail if kind == "f" else self.gfail):
            self.sim.fault("fail@" + ("eval" if kind == "f" else "gradient"))
            e = injected(self.sim, "%s %s%d" % (self.name, kind, i))
            self.raised.append(e)
            raise e
        if self.yields:
            self.sim.event("eval-done", "%s %s%d" % (self.name, kind, i))
        v = value_of(at, scale, self.vtype) if kind == "f" else grad_of(at, scale, self.vtype)
        if kind == "f" and self.vtype == "vector":
            v = np.array([v, -v, 0.5])
        if isinstance(v, np.ndarray):
            self.done.append((kind, at, v.copy(), stored))
            if self.reuse:   # the array of the call before, filled anew
                buf = self.buffers.setdefault((kind, v.shape, str(v.dtype)), v)
                buf[...] = v
                v = buf
        else:
            self.done.append((kind, at, v, stored))
        return v


class Base:
    def __init__(self, script):
        self.script = script
        self.scale = 1.0
        self.label = script.name


class Plain(Base):
    def __call__(self, params):
        return self.script.run("f", params, self.scale, None)


class WithArtifacts(Base):
    def __call__(self, params, store_artifact=None):
        return self.script.run("f", params, self.scale, store_artifact)


class PlainGrad(Plain):
    def gradient(self, params):
        return self.script.run("g", params, self.scale, None)


class ArtGrad(WithArtifacts):
    def gradient(self, params):
        return self.script.run("g", params, self.scale, None)


def closure(s, art, form):
    """The same as a plain function; all of them have one name."""
    owner = []
    if art:
        def f(params, store_artifact=None):
            return s.run("f", params, owner[0].scale, store_artifact)
    else:
        def f(params):
            return s.run("f", params, owner[0].scale, None)
    if form == "wrapped":
        f = functools.wraps(f)(functools.partial(_through, f))
    owner.append(f)
    f.script, f.scale, f.label = s, 1.0, s.name
    return f


def _through(f, *args, **kwargs):
    return f(*args, **kwargs)


def make(sim, spec):
    """spec: kind in plain/art/plain+g/art+g, style class/tuple."""
    s = Script(sim, spec)
    if spec.get("style") == "closure" and spec["kind"] in ("plain", "art"):
        return closure(s, spec["kind"] == "art", spec.get("form")), s
    if spec["kind"] == "plain":
        return Plain(s), s
    if spec["kind"] == "art":
        return WithArtifacts(s), s
    if spec.get("style") == "tuple":
        inner = Plain(s) if spec["kind"] == "plain+g" else WithArtifacts(s)
        g = Grad(inner)
        return function_with_gradient(inner, g), s
    return (PlainGrad(s) if spec["kind"] == "plain+g" else ArtGrad(s)), s


class Grad:
    """Free-standing gradient for function_with_gradient."""

    def __init__(self, f):
        self.f = f

    def __call__(self, params):
        return self.f.script.run("g", params, self.f.scale, None)


def gen_spec(rng, i, calls=12):
    kind = rng.choice(["plain", "plain", "art", "plain+g", "art+g"])
    arts = []
    if kind.startswith("art"):
        for _ in range(rng.choice([1, 2, 4])):
            arts.append([[rng.choice(["a", "b", "c"]), rng.randrange(10), rng.choice([None, False, True, None])] for _ in range(rng.choice([0, 1, 1, 2, 3]))])
    return dict(name="f%d" % i, kind=kind, vtype=rng.choice(["float", "float", "estimate", "estimate", "no-precision", "np", "int", "wild"]), style=rng.choice(["class", "tuple"]), arts=arts,
                fail=sorted(rng.sample(range(calls), rng.choice([0, 0, 1, 3]))), gfail=sorted(rng.sample(range(calls), rng.choice([0, 0, 1, 2]))))
