"""What a process forgets when it dies: the library's in-memory state.

The state of all library modules (globals, class and function attributes, default arguments, closures,
containers and library objects reachable from them, lru caches) is remembered before the first run.  It is put
back before every run, so that a run depends on its scenario only, and at every simulated process death,
so that nothing but the directory survives it."""
import collections
import sys
import types

from kernel import Patches

ROOTS = ("zquantum", "steps")
CONTAINERS = (dict, list, set, collections.OrderedDict, collections.defaultdict, collections.Counter, collections.deque)
CODE = (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, types.MethodType, property, staticmethod, classmethod)
MISSING = object()


def mine(name):
    return isinstance(name, str) and name.split(".")[0] in ROOTS


class LibraryState:
    def __init__(self):
        self.modules = set()
        self.seen = {}
        self.spaces = []       # (namespace owner, remembered bindings)
        self.boxes = []        # (container, remembered content)
        self.cells = []
        self.caches = []
        self.keep = []

    def remember(self):
        for name, m in list(sys.modules.items()):
            if name not in self.modules and mine(name) and isinstance(m, types.ModuleType):
                self.modules.add(name)
                self.visit(m, 0)

    def visit(self, o, depth):
        if id(o) in self.seen or depth > 8:
            return
        t = type(o)
        if t in CONTAINERS:
            self.note(o)
            content = list(o.items()) if isinstance(o, dict) else list(o)
            self.boxes.append((o, content))
            if len(content) <= 4000:
                for x in content:
                    for y in (x if isinstance(o, dict) else (x,)):
                        self.visit(y, depth + 1)
        elif t is tuple:
            for x in o:
                self.visit(x, depth + 1)
        elif isinstance(o, types.ModuleType):
            if mine(o.__name__):
                self.note(o)
                self.space(o, depth)
        elif isinstance(o, type):
            if mine(getattr(o, "__module__", "")):
                self.note(o)
                self.space(o, depth)
        elif isinstance(o, types.FunctionType):
            self.note(o)
            if mine(o.__module__):
                self.space(o, depth)
            for x in o.__defaults__ or ():
                self.visit(x, depth + 1)
            for x in (o.__kwdefaults__ or {}).values():
                self.visit(x, depth + 1)
            for c in o.__closure__ or ():
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                self.cells.append((c, v))
                self.visit(v, depth + 1)
        elif isinstance(o, (staticmethod, classmethod)):
            self.visit(o.__func__, depth)
        elif isinstance(o, property):
            for f in (o.fget, o.fset, o.fdel):
                if f is not None:
                    self.visit(f, depth)
        elif hasattr(t, "cache_clear") or (hasattr(o, "cache_clear") and not mine(t.__module__)):
            self.note(o)
            if mine(getattr(o, "__module__", "")):
                self.caches.append(o)
        elif mine(getattr(t, "__module__", "")) and hasattr(o, "__dict__"):
            self.note(o)
            self.space(o, depth)

    def note(self, o):
        self.seen[id(o)] = True
        self.keep.append(o)

    def space(self, o, depth):
        names = dict(vars(o))
        self.spaces.append((o, names))
        for k, v in names.items():
            if not skip(k):
                self.visit(v, depth + 1)

    def forget(self):
        """Put the remembered state back; returns how many places had changed."""
        n = 0
        for o, names in self.spaces:
            now = vars(o)
            changed = [k for k, v in list(now.items()) if names.get(k, MISSING) is not v and not skip(k)]
            if len(now) - len(changed) < len(names):
                changed += [k for k in names if k not in now and not skip(k)]
            for k in changed:
                if (id(o), k) in Patches.ACTIVE:
                    continue
                cur = now.get(k, MISSING)
                if isinstance(cur, CODE) or (cur is not MISSING and hasattr(cur, "cache_clear")):
                    continue  # a seam of the simulator, or a module imported since
                n += 1
                if k in names:
                    put(o, k, names[k])
                else:
                    drop(o, k)
        for c, content in self.boxes:
            if isinstance(c, dict):
                if len(c) == len(content) and all(a is c.get(k, MISSING) for k, a in content):
                    continue
                dict.clear(c)
                for k, v in content:
                    dict.__setitem__(c, k, v)
            elif isinstance(c, set):
                if len(c) == len(content) and all(x in c for x in content):
                    continue
                c.clear()
                c.update(content)
            else:
                if len(c) == len(content) and all(a is b for a, b in zip(c, content)):
                    continue
                c.clear()
                c.extend(content)
            n += 1
        for c, v in self.cells:
            try:
                if c.cell_contents is not v and not isinstance(c.cell_contents, CODE):
                    c.cell_contents = v
                    n += 1
            except ValueError:
                pass
        for c in self.caches:
            c.cache_clear()
        return n


def skip(name):
    return not isinstance(name, str) or (name.startswith("__") and name.endswith("__")) or name.startswith("_abc")


def put(o, k, v):
    try:
        type.__setattr__(o, k, v) if isinstance(o, type) else object.__setattr__(o, k, v)
    except (AttributeError, TypeError):
        try:
            setattr(o, k, v)
        except Exception:
            pass


def drop(o, k):
    try:
        type.__delattr__(o, k) if isinstance(o, type) else object.__delattr__(o, k)
    except (AttributeError, TypeError):
        pass


STATE = None


def process_death():
    """Forget everything the library keeps in memory."""
    global STATE
    if STATE is None:
        STATE = LibraryState()
    fresh = not STATE.modules
    if not fresh:
        n = STATE.forget()
    else:
        n = 0
    STATE.remember()
    return n
