"""Abstract interpreter over the compiler's intermediate representation (CPython 3.12 bytecode).

The analysed program is decoded, never executed: every value below is an abstract value, every
unknown branch is explored both ways, every loop is run to a fixpoint over canonical abstract
states (see explore.py).
"""
import ast
import asyncio
import builtins
import collections
import glob
import importlib
import os
import sys
import time
from fractions import Fraction

from . import num as N
from .core import *
from .core import NULL, UNBOUND


class State:
    __slots__ = ("heap", "owned", "next_oid", "ready", "timers", "now", "bounds", "facts", "vars", "tasks", "seq")

    def __init__(self):
        self.heap = {}
        self.owned = set()
        self.next_oid = 1
        self.ready = []
        self.timers = []
        self.now = N.atom("T0")
        self.bounds = {}
        self.facts = {}
        self.vars = {}
        self.tasks = []
        self.seq = 0

    def clone(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        self.owned = set()
        s.owned = set()
        s.next_oid = self.next_oid
        s.ready = list(self.ready)
        s.timers = list(self.timers)
        s.now = self.now
        s.bounds = dict(self.bounds)
        s.facts = dict(self.facts)
        s.vars = dict(self.vars)
        s.tasks = list(self.tasks)
        s.seq = self.seq
        return s


EXC_TREE = {
    "BaseException": "object", "Exception": "BaseException", "GeneratorExit": "BaseException",
    "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException", "CancelledError": "BaseException",
    "ArithmeticError": "Exception", "OverflowError": "ArithmeticError", "ZeroDivisionError": "ArithmeticError",
    "FloatingPointError": "ArithmeticError", "AssertionError": "Exception", "AttributeError": "Exception",
    "BufferError": "Exception", "EOFError": "Exception", "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError", "LookupError": "Exception", "IndexError": "LookupError",
    "KeyError": "LookupError", "MemoryError": "Exception", "NameError": "Exception",
    "UnboundLocalError": "NameError", "OSError": "Exception", "ConnectionError": "OSError",
    "ConnectionRefusedError": "ConnectionError", "ConnectionResetError": "ConnectionError",
    "TimeoutError": "OSError", "FileNotFoundError": "OSError", "PermissionError": "OSError",
    "ReferenceError": "Exception", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
    "RecursionError": "RuntimeError", "StopIteration": "Exception", "StopAsyncIteration": "Exception",
    "SyntaxError": "Exception", "SystemError": "Exception", "TypeError": "Exception",
    "ValueError": "Exception", "UnicodeError": "ValueError", "Warning": "Exception",
    "DeprecationWarning": "Warning", "UserWarning": "Warning", "RuntimeWarning": "Warning",
    "InvalidStateError": "Exception", "BaseExceptionGroup": "BaseException", "ExceptionGroup": "Exception",
}


OBJECT_NAMES = frozenset(dir(object))
NATIVE_CLASSES = {"deque": collections.deque, "Task": asyncio.Task, "Future": asyncio.Future}


def real_class(module, name):
    """The class that a model class, or a native one (module None), stands for."""
    if module is None:
        c = NATIVE_CLASSES.get(name, getattr(builtins, name, None))
    elif module in sys.stdlib_module_names or module.split(".")[0] in sys.stdlib_module_names:
        try:
            c = getattr(importlib.import_module(module), name, None)
        except ImportError:
            return None
    else:
        return None
    return c if isinstance(c, type) and c is not object else None


def real_has(module, name):
    """Has the real module, of which only a part is modelled, this name?  (The repository's own modules are complete.)"""
    top = str(module).split(".")[0]
    if top in sys.stdlib_module_names:
        try:
            real = importlib.import_module(module)
        except ImportError:
            return False
        return hasattr(real, name) or name == "__path__"
    if top == "kubernetes_asyncio":
        sites = glob.glob("/opt/venv/lib/python3*/site-packages/kubernetes_asyncio")
        if not sites:
            return True
        base = os.path.join(os.path.dirname(sites[0]), module.replace(".", "/"))
        if os.path.isdir(os.path.join(base, name)) or os.path.isfile(os.path.join(base, name + ".py")):
            return True
        for path in (base + ".py", os.path.join(base, "__init__.py")):
            if os.path.isfile(path):
                with open(path, encoding="utf-8") as fh:
                    bound = set()
                    for n in ast.walk(ast.parse(fh.read())):
                        if isinstance(n, (ast.Import, ast.ImportFrom)):
                            bound |= {(a.asname or a.name).split(".")[0] for a in n.names}
                        elif isinstance(n, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)):
                            bound.add(n.name)
                        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            bound.add(n.id)
                    return name in bound or "*" in bound
        return True
    return False


class Machine:
    def __init__(self, roots, limits=None):
        self.roots = roots            # {package prefix: directory}; models dir under key ""
        self.base = {}
        self.st = State()
        self.modules = {}
        self.builtins = {}
        self.classes = {}
        self.active = []
        self.uses_done = set()
        self.nat = 0
        self.steps = 0
        self.total_steps = 0
        self.step_limit = 3_000_000
        self.deadline = float("inf")
        self.prefix = []
        self.pos = 0
        self.new_choice_hook = None
        self.loop_hook = None
        self.trace = []
        self.covered = {}
        self.funcs_seen = {}
        self.lines_seen = set()
        self.native_seen = {}
        self.unknown_used = {}
        self.checks = {}
        self.violations = []
        self.covers = {}
        self.oth_pruned = 0
        self.sources = {}
        self.options = {"star": 2}
        self.atom_seq = 0
        from . import natives
        self.natives = natives
        natives.install(self)

    # ------------------------------------------------------------------ heap
    def new(self, kind, cls, attrs=None, data=None):
        st = self.st
        oid = st.next_oid
        st.next_oid += 1
        st.heap[oid] = HObj(kind, cls, attrs, data)
        st.owned.add(oid)
        return Ref(oid)

    def o(self, ref):
        oid = ref.oid
        h = self.st.heap.get(oid)
        if h is None:
            return self.base[oid]
        return h

    def w(self, ref):
        oid = ref.oid
        st = self.st
        h = st.heap.get(oid)
        if oid in st.owned:
            return h
        if h is None:
            h = self.base[oid]
        h = h.copy()
        st.heap[oid] = h
        st.owned.add(oid)
        return h

    def freeze(self):
        """Everything allocated so far becomes the shared base heap."""
        self.base.update(self.st.heap)
        self.st.heap = {}
        self.st.owned = set()

    # ------------------------------------------------------------------ choices
    def choose(self, n, label=""):
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            c = 0
            self.prefix.append(0)
            if self.new_choice_hook:
                self.new_choice_hook(self.pos, n)
        self.pos += 1
        if label:
            self.trace.append(("choice", label, c))
        return c

    def fork(self, label=""):
        return self.choose(2, label) == 0

    # ------------------------------------------------------------------ exceptions
    def exc(self, name, *args):
        cls = self.classes[name]
        v = self.new("inst", cls, {"args": tuple(args), "__cause__": None, "__context__": None})
        if name == "StopIteration":
            self.w(v).attrs["value"] = args[0] if args else None
        return PyExc(v)

    def raise_(self, name, *args):
        e = self.exc(name, *args)
        self.mark_exc(e.val)
        raise e

    def mark_exc(self, val):
        if isinstance(val, Ref):
            h = self.w(val)
            if h.attrs is not None and "!where" not in h.attrs:
                for f in reversed(self.active):
                    h.attrs["!where"] = (f.code.where(f.pc - 1), f.code.inrepo, f.code.qualname)
                    break
                for f in reversed(self.active):
                    if f.code.inrepo:
                        h.attrs["!repo"] = (f.code.where(f.pc - 1), f.code.qualname)
                        break

    def exc_desc(self, val):
        if isinstance(val, Ref):
            h = self.o(val)
            cn = self.o(h.cls).data.name if h.cls else "?"
            w = (h.attrs or {}).get("!repo") or (h.attrs or {}).get("!where")
            a = (h.attrs or {}).get("args", ())
            return f"{cn}({', '.join(self.show(x) for x in a)})" + (f" raised at {w[0]} in {w[-1]}" if w else "")
        return repr(val)

    def show(self, v, depth=2):
        if isinstance(v, Ref):
            h = self.o(v)
            if h.kind == "class":
                return f"class {h.data.name}"
            if h.kind == "func":
                return f"function {h.data.name}"
            if depth <= 0:
                return "..."
            if h.kind == "list":
                return "[" + ", ".join(self.show(x, depth - 1) for x in h.data) + "]"
            if h.kind == "dict":
                return "{" + ", ".join(f"{self.show(k, depth-1)}: {self.show(x, depth-1)}" for k, x in h.data.values()) + "}"
            if h.kind == "set":
                return "{" + ", ".join(self.show(x, depth - 1) for x in h.data.values()) + "}"
            cn = self.o(h.cls).data.name if h.cls else h.kind
            if h.kind == "inst" and h.attrs and depth > 1:
                if "args" in h.attrs and self.issub(h.cls, self.classes["BaseException"]):
                    return self.exc_desc(v)
                return f"{cn}(" + ", ".join(f"{k}={self.show(x, depth-1)}" for k, x in list(h.attrs.items())[:6] if not k.startswith("!")) + ")"
            return f"<{cn}>"
        if isinstance(v, VSub):
            h = self.o(v.cls)
            if isinstance(v.val, tuple):
                return h.data.name + "(" + ", ".join(self.show(x, depth - 1) for x in v.val) + ")"
            return f"{h.data.name}({v.val!r})"
        if isinstance(v, tuple):
            return "(" + ", ".join(self.show(x, depth - 1) for x in v) + ")"
        return repr(v)

    # ------------------------------------------------------------------ classes
    def mkclass(self, name, bases=(), base=None, attrs=None, meta=None):
        if not bases and name != "object":
            bases = (self.classes["object"],)
        if base is None:
            base = self.o(bases[0]).data.base if bases else "object"
        ref = self.new("class", None, dict(attrs or {}))
        mro = self.c3(ref, bases)
        self.w(ref).data = ClassData(name, tuple(bases), mro, base, meta)
        return ref

    def c3(self, ref, bases):
        seqs = [list(self.o(b).data.mro) for b in bases] + [list(bases)]
        out = [ref]
        while any(seqs):
            for s in seqs:
                if s and not any(s[0] in t[1:] for t in seqs):
                    c = s[0]
                    break
            else:
                self.raise_("TypeError", "inconsistent MRO")
            out.append(c)
            for s in seqs:
                if s and s[0] == c:
                    s.pop(0)
        return tuple(out)

    def issub(self, c, d):
        return c == d or d in self.o(c).data.mro

    def type_of(self, v):
        C = self.classes
        if v is None:
            return C["NoneType"]
        t = v.__class__
        if t is Ref:
            h = self.o(v)
            if h.cls is not None:
                return h.cls
            k = h.kind
            if k == "class":
                return h.data.meta or C["type"]
            return C[{"func": "function", "coro": "coroutine", "gen": "generator", "iter": "iterator",
                      "agen": "async_generator", "module": "module", "cell": "cell"}.get(k, "object")]
        if t is bool:
            return C["bool"]
        if t is int:
            return C["int"]
        if t is float:
            return C["float"]
        if t is str or t is Tok or t is Oth or t is Fmt:
            return C["str"]
        if t is Num_:
            return C["int"] if self.num_is_int(v) else C["float"]
        if t is bytes:
            return C["bytes"]
        if t is tuple:
            return C["tuple"]
        if t is VSub:
            return v.cls
        if t is NFunc:
            return C["builtin_function_or_method"]
        if t is Bound:
            return C["method"]
        if t is complex:
            return C["complex"]
        if v is Ellipsis:
            return C["ellipsis"]
        if t is Sym:
            return C["object"]
        raise Broken(f"type_of {v!r}")

    def num_is_int(self, v):
        for mono, c in v.t:
            if c.denominator != 1:
                return False
            for a, e in mono:
                if e < 0:
                    return False
                b = self.st.bounds.get(a)
                if isinstance(a, tuple) and a[0] == "int":
                    continue
                if isinstance(a, tuple) and a[0] == "pow" and isinstance(a[1], int):
                    continue
                if ("isint", a) not in self.st.facts:
                    return False
        return True

    def class_lookup(self, cls, name):
        for c in self.o(cls).data.mro:
            a = self.o(c).attrs
            if name in a:
                return a[name]
        return None if name != "__missing__" else None

    def class_has(self, cls, name):
        for c in self.o(cls).data.mro:
            if name in self.o(c).attrs:
                return True
        return False

    def check_modelled(self, cls, *names):
        """A name that the real class has and its model has not: the path cannot be followed further."""
        for c in self.o(cls).data.mro:
            d = self.o(c).data
            real = real_class(d.module, d.name)
            if real is None:
                continue
            for n in names:
                own = "__" not in n or d.module not in (None, "builtins") and n not in OBJECT_NAMES
                if own and (hasattr(real, n) or c == cls and d.module is not None and n[:1] == "_" and n[:2] != "__"):
                    raise Broken(f"{d.name}.{n} is not modelled")

    def class_lookup_d(self, cls, name):
        """(found, value, defining class)"""
        for c in self.o(cls).data.mro:
            a = self.o(c).attrs
            if name in a:
                return True, a[name], c
        return False, None, None

    # ------------------------------------------------------------------ attribute access
    def bind(self, attr, obj, cls):
        """Descriptor binding of a class attribute for instance obj (or None when via class)."""
        t = attr.__class__
        if t is NFunc:
            return Bound(attr, obj) if obj is not None else attr
        if t is Ref:
            h = self.o(attr)
            k = h.kind
            if k == "func":
                return Bound(attr, obj) if obj is not None else attr
            if k == "staticmethod":
                return h.data
            if k == "classmethod":
                return self.bind_call(h.data, cls)
            if k == "property":
                if obj is None:
                    return attr
                if h.data[0] is None:
                    self.raise_("AttributeError", "unreadable attribute")
                return self.call(h.data[0], [obj], {})
            if k == "inst" and h.cls is not None and self.class_has(h.cls, "__get__"):
                return self.call_method(attr, "__get__", [obj, cls])
        return attr

    def bind_call(self, f, self_):
        if f.__class__ is NFunc or (f.__class__ is Ref and self.o(f).kind == "func"):
            return Bound(f, self_)
        if f.__class__ is Ref:
            return self.bind(f, self_, self_)
        return f

    def getattr(self, v, name):
        t = v.__class__
        if t is Ref:
            h = self.o(v)
            k = h.kind
            if k == "class":
                return self.class_getattr(v, h, name)
            if k == "module":
                a = h.attrs
                if name in a:
                    return a[name]
                if h.data == "opaque":
                    return self.unknown(f"{a.get('__name__')}.{name}")
                if name == "__dict__":
                    return self.mkdict({x: y for x, y in a.items()})
                if real_has(a.get("__name__"), name):
                    return self.unknown(f"{a.get('__name__')}.{name}")
                self.raise_("AttributeError", f"module {a.get('__name__')} has no attribute {name}")
            if k == "super":
                obj, mro = h.data
                for c in mro:
                    a = self.o(c).attrs
                    if name in a:
                        ocls = obj if (isinstance(obj, Ref) and self.o(obj).kind == "class") else self.type_of(obj)
                        isc = isinstance(obj, Ref) and self.o(obj).kind == "class" and c in self.o(obj).data.mro
                        if not isc:
                            ocls = self.type_of(obj)
                        att = a[name]
                        if name == "__new__":
                            return self.o(att).data if isinstance(att, Ref) and self.o(att).kind == "staticmethod" else att
                        return self.bind(att, None if isc else obj, ocls)
                for c in mro:
                    self.check_modelled(c, name)
                self.raise_("AttributeError", f"super object has no attribute {name}")
            if k == "opaque":
                return self.unknown(f"{h.data}.{name}")
            cls = self.type_of(v)
            found, a, dc = self.class_lookup_d(cls, name)
            if found and a.__class__ is Ref:
                ah = self.o(a)
                if ah.kind == "property" or ah.kind == "inst" and ah.cls is not None and self.class_has(ah.cls, "__set__"):
                    return self.bind(a, v, cls)
            if h.attrs is not None and name in h.attrs:
                return h.attrs[name]
            if found:
                return self.bind(a, v, cls)
            if name == "__class__":
                return cls
            if name == "__dict__":
                if h.attrs is None:
                    self.raise_("AttributeError", name)
                return self.new("dict", self.classes["dict"], {"!of": v},
                                {k2: (k2, x) for k2, x in h.attrs.items() if not k2.startswith("!")})
            if k == "func":
                fd = h.data
                if name == "__name__":
                    return fd.name
                if name == "__qualname__":
                    return fd.code.qualname
                if name == "__module__":
                    return self.o(Ref(fd.globals)).attrs.get("__name__")
                if name in ("__doc__", "__defaults__", "__wrapped__") and name != "__wrapped__":
                    return None
                if name == "__code__":
                    return self.unknown("__code__")
                if name == "__get__":
                    return NFunc("function.__get__", lambda m, a, kw: Bound(v, a[0]))
            if name == "__doc__":
                return None
            if name == "__module__":
                return None
            if k == "slice" and name in ("start", "stop", "step"):
                return h.data[("start", "stop", "step").index(name)]
            g = self.class_lookup(cls, "__getattr__")
            if g is not None:
                return self.call(g, [v, name], {})
            self.check_modelled(cls, name)
            self.raise_("AttributeError", f"{self.o(cls).data.name!r} object has no attribute {name!r}")
        if t is Sym:
            return self.unknown_child(v, name)
        if t is Bound:
            if name == "__self__":
                return v.self
            if name == "__func__":
                return v.func
            if name in ("__name__", "__qualname__"):
                return v.func.name if isinstance(v.func, NFunc) else self.getattr(v.func, name)
            if name in ("__doc__", "__module__"):
                return None
            if isinstance(v.func, Ref):
                return self.getattr(v.func, name)
            self.raise_("AttributeError", name)
        if t is NFunc:
            if name in ("__name__", "__qualname__"):
                return v.name.split(".")[-1]
            if name in ("__doc__", "__module__"):
                return None
            self.raise_("AttributeError", name)
        cls = self.type_of(v)
        found, a, dc = self.class_lookup_d(cls, name)
        if found:
            if t is VSub and a.__class__ is tuple and len(a) == 2 and a[0] == "!ntfield":
                return v.val[a[1]]
            return self.bind(a, v, cls)
        if name == "__class__":
            return cls
        if name == "__doc__":
            return None
        self.check_modelled(cls, name)
        self.raise_("AttributeError", f"{self.o(cls).data.name!r} object has no attribute {name!r}")

    def class_getattr(self, v, h, name):
        meta = h.data.meta
        found, a, dc = self.class_lookup_d(v, name)
        if meta is not None and not found:
            f2, a2, _ = self.class_lookup_d(meta, name)
            if f2:
                return self.bind(a2, v, meta)
        if found:
            if name == "__new__" and isinstance(a, Ref) and self.o(a).kind == "func":
                return a
            return self.bind(a, None, v)
        d = h.data
        if name == "__name__":
            return d.name
        if name == "__qualname__":
            return d.qualname
        if name == "__mro__":
            return d.mro
        if name == "__bases__":
            return d.bases
        if name == "__dict__":
            return self.mkdict(dict(h.attrs))
        if name == "__doc__":
            return None
        if name == "__module__":
            return d.module
        if name == "__class__":
            return meta or self.classes["type"]
        f2, a2, _ = self.class_lookup_d(self.classes["type"], name)
        if f2:
            return self.bind(a2, v, self.classes["type"])
        if name == "__setattr__" and v == self.classes["object"]:
            def plain(m, a, kw):
                h = m.w(a[0])
                if h.attrs is None:
                    h.attrs = {}
                h.attrs[a[1]] = a[2]
            return NFunc("object.__setattr__", plain)
        self.check_modelled(v, name)
        self.raise_("AttributeError", f"type object {d.name!r} has no attribute {name!r}")

    def getattr_opt(self, v, name):
        """(found, value) - AttributeError becomes not found."""
        try:
            return True, self.getattr(v, name)
        except PyExc as e:
            if self.exc_is(e.val, "AttributeError"):
                return False, None
            raise

    def setattr(self, v, name, val):
        if v.__class__ is Ref:
            h = self.o(v)
            k = h.kind
            if k in ("inst", "list", "dict", "set", "future", "task") and h.cls is not None:
                found, a, dc = self.class_lookup_d(h.cls, name)
                if found and a.__class__ is Ref:
                    ah = self.o(a)
                    if ah.kind == "property":
                        if ah.data[1] is None:
                            self.raise_("AttributeError", f"can't set attribute {name}")
                        self.call(ah.data[1], [v, val], {})
                        return
                    if ah.kind == "inst" and ah.cls is not None and self.class_has(ah.cls, "__set__"):
                        self.call_method(a, "__set__", [v, val])
                        return
                sa = self.class_lookup(h.cls, "__setattr__")
                if sa is not None:
                    self.call(sa, [v, name, val], {})
                    return
                if h.attrs is None and k != "inst":
                    hh = self.w(v)
                    if self.o(h.cls).data.module is None:
                        self.raise_("AttributeError", name)
                    hh.attrs = {}
                self.w(v).attrs[name] = val
                return
            if k in ("class", "module", "func"):
                hh = self.w(v)
                if hh.attrs is None:
                    hh.attrs = {}
                hh.attrs[name] = val
                return
            if k == "opaque":
                return
        if v.__class__ is Sym:
            return
        if v.__class__ is VSub or v.__class__ is tuple:
            self.raise_("AttributeError", "can't set attribute")
        self.raise_("AttributeError", f"cannot set {name}")

    def delattr(self, v, name):
        if v.__class__ is Ref:
            h = self.o(v)
            if h.kind not in ("class", "module") and h.cls is not None:
                found, a, dc = self.class_lookup_d(h.cls, name)
                if found and a.__class__ is Ref:
                    ah = self.o(a)
                    if ah.kind == "property":
                        if ah.data[2] is None:
                            self.raise_("AttributeError", f"can't delete attribute {name}")
                        self.call(ah.data[2], [v], {})
                        return
                    if ah.kind == "inst" and ah.cls is not None and self.class_has(ah.cls, "__delete__"):
                        self.call_method(a, "__delete__", [v])
                        return
                da = self.class_lookup(h.cls, "__delattr__")
                if da is not None:
                    self.call(da, [v, name], {})
                    return
            h = self.w(v)
            if h.attrs is not None and name in h.attrs:
                del h.attrs[name]
                return
        if v.__class__ is Sym:
            return
        self.raise_("AttributeError", name)

    # ------------------------------------------------------------------ unknown values
    def unknown(self, name):
        self.unknown_used[name.split("#")[0]] = self.unknown_used.get(name.split("#")[0], 0) + 1
        return Sym(name)

    def unknown_child(self, v, name):
        return Sym(f"{v.name}.{name}") if len(v.name) < 80 else v

    def fresh(self, name):
        self.st.seq += 1
        return f"{name}#{self.st.seq}"

    # ------------------------------------------------------------------ containers
    def mklist(self, items=()):
        return self.new("list", self.classes["list"], None, list(items))

    def mkdict(self, d=None):
        return self.new("dict", self.classes["dict"], None,
                        {self.hk(k): (k, v) for k, v in (d or {}).items()})

    def mkset(self, items=(), cls="set"):
        d = {}
        for x in items:
            d.setdefault(self.hk(x), x)
        return self.new("set", self.classes[cls], None, d)

    def hk(self, v):
        """Hash key of a hashable abstract value."""
        t = v.__class__
        if t is tuple:
            return tuple([self.hk(x) for x in v])
        if t is VSub:
            return self.hk(v.val)
        if t is Ref:
            h = self.o(v)
            if h.kind in ("list", "dict") or (h.kind == "set" and h.cls != self.classes["frozenset"]):
                if not (h.cls is not None and self.class_lookup(h.cls, "__hash__")):
                    self.raise_("TypeError", f"unhashable type: {self.o(h.cls).data.name}")
            if h.kind == "set":
                return ("!fs", frozenset(h.data))
            if h.kind == "inst":
                he = self.class_lookup(h.cls, "__hash__")
                if he is not None and he.__class__ is Ref:
                    eqf = self.class_lookup(h.cls, "__eq__")
                    if eqf is not None:
                        r = self.call(he, [v], {})
                        return r if r.__class__ is tuple and r and r[0] == "!h" else ("!h", r)
                elif he is None and self.class_lookup(h.cls, "__eq__") is not None and \
                        self.class_lookup(h.cls, "__eq__").__class__ is Ref:
                    self.raise_("TypeError", "unhashable type")
            return v
        return v

    # ------------------------------------------------------------------ truth, comparison
    def truth(self, v):
        if v is None or v is False:
            return False
        if v is True:
            return True
        t = v.__class__
        if t is int or t is float or t is str or t is bytes or t is tuple or t is complex:
            return bool(v)
        if t is Num_:
            return not self.num_sign_is(v, {0})
        if t is Ref:
            h = self.o(v)
            k = h.kind
            if k in ("list", "dict", "set"):
                f = self.class_lookup(h.cls, "__bool__")
                if f is not None and f.__class__ is Ref:
                    return self.truth(self.call(f, [v], {}))
                f = self.class_lookup(h.cls, "__len__")
                if f is not None and f.__class__ is Ref:
                    return self.truth(self.call(f, [v], {}))
                return self.nonempty(v)
            if h.cls is not None and k in ("inst", "future", "task"):
                f = self.class_lookup(h.cls, "__bool__")
                if f is not None:
                    return self.truth(self.call(f, [v], {}))
                f = self.class_lookup(h.cls, "__len__")
                if f is not None:
                    return self.truth(self.call(f, [v], {}))
            return True
        if t is VSub:
            f = self.class_lookup(v.cls, "__bool__")
            if f is not None and f.__class__ is Ref:
                return self.truth(self.call(f, [v], {}))
            return self.truth(v.val)
        if t is Fmt or t is Tok or t is Oth:
            return True
        if t is Sym:
            return self.sym_fact(("truth", v), f"truth of {v!r}")
        return True

    def sym_fact(self, key, label):
        f = self.st.facts.get(key)
        if f is None:
            f = self.fork(label)
            self.st.facts[key] = f
        return f

    def nonempty(self, ref):
        h = self.o(ref)
        d = h.data
        if not d:
            return False
        if h.kind == "list":
            if any(x.__class__ is not Star for x in d):
                return True
            if self.fork("list is empty"):
                self.w(ref).data = []
                return False
            self.star_take(ref, 0, remove=False)
            return True
        ks = [k for k in d if k.__class__ is Oth]
        if len(ks) < len(d):
            return True
        if self.fork("container has no other member"):
            self.w(ref).data = {}
            return False
        return True

    def star_take(self, ref, idx, remove):
        """Materialise the element at list position idx (a Star). Returns True if an element exists
        there now (the Star may be found empty and vanish: returns False)."""
        h = self.o(ref)
        s = h.data[idx]
        vals = sorted(s.vals, key=repr)
        if self.fork("segment empty"):
            self.w(ref).data.pop(idx)
            return False
        v = vals[self.choose(len(vals))]
        self.w(ref).data.insert(idx, v)
        return True

    def num_sign(self, p):
        return N.sign_set(p, self.st.bounds, {k: v for k, v in self.st.facts.items() if k.__class__ is Num_})

    def num_sign_is(self, p, want):
        """True iff sign(p) in want; forks when undetermined."""
        ss = self.num_sign(p)
        if ss <= want:
            return True
        if not (ss & want):
            return False
        n, s = N.normal(p)
        if self.fork(f"sign of {p!r} in {sorted(want)}"):
            res = ss & want
            r = True
        else:
            res = ss - want
            r = False
        self.st.facts[n] = frozenset(s * x for x in res)
        return r

    def simp(self, p):
        c = p.const()
        if c is None:
            return p
        return int(c) if c.denominator == 1 else float(c)

    def is_num(self, v):
        return v.__class__ in (int, float, bool, Num_)

    def eq(self, a, b):
        if a is b and a.__class__ is not float and a.__class__ is not Oth:
            return True
        ta, tb = a.__class__, b.__class__
        if ta in CONST_TYPES and tb in CONST_TYPES:
            return a == b
        if ta is Ref and tb is Ref and a.oid == b.oid:
            h = self.o(a)
            return True
        if ta is VSub or tb is VSub:
            for x, y in ((a, b), (b, a)):
                if x.__class__ is VSub:
                    f = self.class_lookup(x.cls, "__eq__")
                    if f is not None and f.__class__ is Ref:
                        return self.truth(self.call(f, [x, y], {}))
            return self.eq(a.val if ta is VSub else a, b.val if tb is VSub else b)
        if ta is Ref or tb is Ref:
            for x, y in ((a, b), (b, a)):
                if x.__class__ is Ref:
                    h = self.o(x)
                    if h.cls is not None and h.kind in ("inst", "list", "dict", "set"):
                        f = self.class_lookup(h.cls, "__eq__")
                        if f is not None and f.__class__ is Ref:
                            r = self.call(f, [x, y], {})
                            if r.__class__ is NFunc and r.name == "NotImplemented":
                                continue
                            return self.truth(r)
        if ta is Sym or tb is Sym:
            if a == b:
                return True
            if a is None or b is None or True:
                k = ("eq", a, b) if repr(a) <= repr(b) else ("eq", b, a)
                return self.sym_fact(k, f"{a!r} == {b!r}")
        if ta is Num_ or tb is Num_:
            if self.is_num(a) and self.is_num(b):
                return self.num_sign_is(N.sub(N.of(a), N.of(b)), {0})
            return False
        if ta is Tok or tb is Tok:
            return a == b
        if ta is Oth or tb is Oth:
            if ta is tb and a.dom == b.dom:
                return self.fork("equality of two other values")
            return False
        if ta is tuple and tb is tuple:
            if len(a) != len(b):
                return False
            return all(self.eq(x, y) for x, y in zip(a, b))
        if ta is Fmt and tb is Fmt:
            if a == b:
                return True
            if len(a.parts) != len(b.parts):
                return False
            for x, y in zip(a.parts, b.parts):
                if (x.__class__ is str) != (y.__class__ is str) and (x.__class__ is str or y.__class__ is str):
                    return False
                if not self.eq(x, y):
                    return False
            return True
        if ta is Fmt or tb is Fmt:
            return False
        if ta is Ref and tb is Ref:
            ha, hb = self.o(a), self.o(b)
            if ha.kind == "list" and hb.kind == "list":
                if len(ha.data) != len(hb.data):
                    if any(x.__class__ is Star for x in ha.data + hb.data):
                        return self.fork("equality of summarised lists")
                    return False
                if any(x.__class__ is Star for x in ha.data + hb.data):
                    return self.fork("equality of summarised lists")
                return all(self.eq(x, y) for x, y in zip(list(ha.data), list(hb.data)))
            if ha.kind == "dict" and hb.kind == "dict":
                if any(k.__class__ is Oth for k in list(ha.data) + list(hb.data)):
                    return self.fork("equality of summarised dicts")
                if set(ha.data) != set(hb.data):
                    return False
                return all(self.eq(v[1], hb.data[k][1]) for k, v in list(ha.data.items()))
            if ha.kind == "rangeobj" and hb.kind == "rangeobj":
                if all(x.__class__ is int for x in ha.data + hb.data):
                    return range(*ha.data) == range(*hb.data)
                return self.fork("equality of ranges")
            if ha.kind == "set" and hb.kind == "set":
                if any(k.__class__ is Oth for k in list(ha.data) + list(hb.data)):
                    return self.fork("equality of summarised sets")
                return set(ha.data) == set(hb.data)
            return False
        if ta is Bound and tb is Bound:
            return a == b
        return a == b if ta is tb else False

    def is_(self, a, b):
        if a is b:
            return True
        ta, tb = a.__class__, b.__class__
        if ta is Ref or tb is Ref:
            return a == b
        if ta is Sym or tb is Sym:
            return self.eq(a, b)
        if ta is not tb:
            return False
        if ta is Oth:
            return self.eq(a, b)
        return a == b

    def order(self, a, b, op):
        """op in < <= > >=."""
        if self.is_num(a) and self.is_num(b):
            if a.__class__ is Num_ or b.__class__ is Num_:
                inf = float("inf")
                for x, s in ((a, 1), (b, -1)):
                    if x.__class__ is float and x in (inf, -inf):
                        d = s * (1 if x > 0 else -1)
                        return {"<": d < 0, "<=": d < 0, ">": d > 0, ">=": d > 0}[op]
                want = {"<": {-1}, "<=": {-1, 0}, ">": {1}, ">=": {1, 0}}[op]
                return self.num_sign_is(N.sub(N.of(a), N.of(b)), want)
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        ta, tb = a.__class__, b.__class__
        if ta is Sym or tb is Sym:
            return self.sym_fact(("ord", op, a, b), f"{a!r} {op} {b!r}")
        va = a.val if ta is VSub else a
        vb = b.val if tb is VSub else b
        name = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op]
        rname = {"<": "__gt__", "<=": "__ge__", ">": "__lt__", ">=": "__le__"}[op]
        for x, y, nm in ((a, b, name), (b, a, rname)):
            if x.__class__ in (Ref, VSub):
                c = self.type_of(x)
                f = self.class_lookup(c, nm)
                if f is not None and f.__class__ is Ref:
                    r = self.call(f, [x, y], {})
                    if not (r.__class__ is NFunc and r.name == "NotImplemented"):
                        return self.truth(r)
        if (ta is VSub or tb is VSub) and self.is_num(va) and self.is_num(vb):
            return self.order(va, vb, op)
        if va.__class__ is str and vb.__class__ is str:
            return {"<": va < vb, "<=": va <= vb, ">": va > vb, ">=": va >= vb}[op]
        if va.__class__ in (Tok, Oth, Fmt, str) and vb.__class__ in (Tok, Oth, Fmt, str):
            if va == vb and va.__class__ is not Oth:
                return op in ("<=", ">=")
            if va.__class__ is Oth or vb.__class__ is Oth:
                return self.fork("order of strings")
            less = self.sym_fact(("slt",) + tuple(sorted((va, vb), key=repr)), f"order of {va!r} {vb!r}")
            if sorted((va, vb), key=repr)[0] != va:
                less = not less
            return less if op in ("<", "<=") else not less
        sa, sb = self.seq_items(va), self.seq_items(vb)
        if sa is not None and sb is not None:
            for x, y in zip(sa, sb):
                if not self.eq(x, y):
                    return self.order(x, y, op)
            return {"<": len(sa) < len(sb), "<=": len(sa) <= len(sb), ">": len(sa) > len(sb), ">=": len(sa) >= len(sb)}[op]
        if ta is Ref and tb is Ref and self.o(a).kind in ("set", "view") and self.o(b).kind in ("set", "view"):
            x, y = set(self.natives.set_data(self, a)), set(self.natives.set_data(self, b))
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        dunder = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op]
        self.check_modelled(self.type_of(a), dunder)
        self.check_modelled(self.type_of(b), dunder)
        self.raise_("TypeError", f"'{op}' not supported between instances of "
                    f"{self.o(self.type_of(a)).data.name!r} and {self.o(self.type_of(b)).data.name!r}")

    def seq_items(self, v):
        if v.__class__ is tuple:
            return v
        if v.__class__ is Ref and self.o(v).kind == "list":
            return self.o(v).data
        return None

    def compare(self, op, a, b):
        if op == "==":
            return self.eq(a, b)
        if op == "!=":
            if a.__class__ in (Ref, VSub):
                f = self.class_lookup(self.type_of(a), "__ne__")
                if f is not None and f.__class__ is Ref:
                    return self.truth(self.call(f, [a, b], {}))
            return not self.eq(a, b)
        return self.order(a, b, op)

    def contains(self, x, c):
        t = c.__class__
        if t is VSub:
            f = self.class_lookup(c.cls, "__contains__")
            if f is not None and f.__class__ is Ref:
                return self.truth(self.call(f, [c, x], {}))
            c = c.val
            t = c.__class__
        if t is tuple:
            return any(self.eq(x, y) for y in c)
        if t is Ref:
            h = self.o(c)
            if h.cls is not None:
                f = self.class_lookup(h.cls, "__contains__")
                if f is not None and f.__class__ is Ref:
                    return self.truth(self.call(f, [c, x], {}))
            if h.kind in ("dict", "set"):
                return self.natives.has_key(self, c, x)
            if h.kind == "class" and h.data.meta is not None:
                f = self.class_lookup(h.data.meta, "__contains__")
                if f is not None:
                    return self.truth(self.call(f, [c, x], {}))
            if h.kind == "list":
                i = 0
                while True:
                    d = self.o(c).data
                    if i >= len(d):
                        return False
                    y = d[i]
                    if y.__class__ is Star:
                        if any(self.may_eq(x, z) for z in y.vals):
                            if self.fork("member of summarised segment"):
                                return True
                    elif self.eq(x, y):
                        return True
                    i += 1
            return any(self.eq(x, y) for y in self.iterate(c))
        if t is str and x.__class__ is str:
            return x in c
        if t in (str, Fmt, Tok, Oth) and x.__class__ in (str, Fmt, Tok, Oth):
            return self.natives.str_contains(self, c, x)
        if t is Sym:
            return self.sym_fact(("in", x, c), f"{x!r} in {c!r}")
        self.check_modelled(self.type_of(c), "__contains__", "__iter__")
        self.raise_("TypeError", "argument is not iterable")

    def may_eq(self, a, b):
        if a.__class__ is Oth and b.__class__ is Oth:
            return a.dom == b.dom
        return a == b

    # ------------------------------------------------------------------ exceptions matching
    def exc_is(self, val, name):
        return self.isinstance_(val, self.classes[name])

    def isinstance_(self, v, cls):
        if cls.__class__ is tuple:
            return any(self.isinstance_(v, c) for c in cls)
        if cls.__class__ is Sym:
            if v is None or v.__class__ in CONST_TYPES:
                return False
            return self.sym_fact(("isinst", v, cls), f"isinstance {v!r} {cls!r}") if v.__class__ is Sym else False
        if v.__class__ is Sym:
            return self.sym_fact(("isinst", v, cls), f"isinstance {v!r} {self.show(cls)}")
        if cls.__class__ is Ref and self.o(cls).kind == "class":
            ch = self.o(cls)
            if ch.data.base == "abc":
                return self.natives.abc_check(self, ch.data.name, v)
            t = self.type_of(v)
            return self.issub(t, cls)
        if cls.__class__ is Ref and self.o(cls).kind == "opaque":
            return False
        self.raise_("TypeError", "isinstance() arg 2 must be a type or tuple of types")

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        t = f.__class__
        if t is Bound:
            return self.call(f.func, [f.self] + list(args), kw)
        if t is NFunc:
            self.nat += 1
            try:
                return f.fn(self, list(args), kw)
            finally:
                self.nat -= 1
        if t is Ref:
            h = self.o(f)
            k = h.kind
            if k == "func":
                return self.call_func(f, h.data, args, kw)
            if k == "class":
                return self.instantiate(f, h, args, kw)
            if k == "staticmethod":
                return self.call(h.data, args, kw)
            if k == "opaque":
                return self.unknown(f"{h.data}()")
            if h.cls is not None:
                c = self.class_lookup(h.cls, "__call__")
                if c is not None:
                    return self.call(self.bind(c, f, h.cls), args, kw)
        if t is Sym:
            return self.unknown(self.fresh(f.name.split("#")[0] + "()"))
        self.check_modelled(self.type_of(f), "__call__")
        self.raise_("TypeError", f"{self.show(f)} object is not callable")

    def call_method(self, obj, name, args=(), kw=None):
        return self.call(self.getattr(obj, name), list(args), kw or {})

    def call_func(self, ref, fd, args, kw):
        code = fd.code
        loc = self.bind_args(fd, args, kw)
        f = Frame(code, loc, fd.globals, fd.closure)
        f.func = ref
        if code.inrepo:
            self.funcs_seen[code.uid] = self.funcs_seen.get(code.uid, 0) + 1
            self.trace.append(("call", f"{code.qualname} ({code.file}:{code.first})"))
        if len(self.active) > 400:
            self.raise_("RecursionError", "maximum recursion depth exceeded")
        r = self.run(f)
        if r[0] == "ret":
            return r[1]
        raise Broken(f"unexpected suspension in {code.qualname}")

    def bind_args(self, fd, args, kw):
        code = fd.code
        n = code.argc
        tot = n + code.kwonly
        loc = [UNBOUND] * code.nlocalsplus
        na = len(args)
        flags = code.flags
        m = na if na < n else n
        for i in range(m):
            loc[i] = args[i]
        vi = tot
        if flags & CO_VARARGS:
            loc[vi] = tuple(args[n:])
            vi += 1
        elif na > n:
            self.raise_("TypeError", f"{fd.name}() takes {n} positional arguments but {na} were given")
        extra = {}
        if kw:
            names = code.varnames
            for k, v in kw.items():
                for i in range(code.posonly, tot):
                    if names[i] == k:
                        if loc[i] is not UNBOUND:
                            self.raise_("TypeError", f"{fd.name}() got multiple values for argument {k!r}")
                        loc[i] = v
                        break
                else:
                    if not flags & CO_VARKEYWORDS:
                        self.raise_("TypeError", f"{fd.name}() got an unexpected keyword argument {k!r}")
                    extra[k] = v
        if flags & CO_VARKEYWORDS:
            loc[vi] = self.new("dict", self.classes["dict"], None, {k: (k, v) for k, v in extra.items()})
        nd = len(fd.defaults)
        for i in range(n):
            if loc[i] is UNBOUND:
                j = i - (n - nd)
                if j >= 0:
                    loc[i] = fd.defaults[j]
                else:
                    self.raise_("TypeError", f"{fd.name}() missing required argument {code.varnames[i]!r}")
        if code.kwonly:
            kd = dict(fd.kwdefaults)
            for i in range(n, tot):
                if loc[i] is UNBOUND:
                    nm = code.varnames[i]
                    if nm in kd:
                        loc[i] = kd[nm]
                    else:
                        self.raise_("TypeError", f"{fd.name}() missing keyword argument {nm!r}")
        return loc

    def instantiate(self, cls, h, args, kw):
        meta = h.data.meta
        if meta is not None:
            c = self.class_lookup(meta, "__call__")
            if c is not None and c.__class__ is not NFunc:
                return self.call(self.bind(c, cls, meta), args, kw)
        return self.make_instance(cls, args, kw)

    def make_instance(self, cls, args, kw):
        self.nat += 1
        try:
            new = self.class_lookup(cls, "__new__")
            if new is not None:
                if new.__class__ is Ref and self.o(new).kind == "staticmethod":
                    new = self.o(new).data
                obj = self.call(new, [cls] + list(args), kw)
                if not self.issub(self.type_of(obj), cls) or obj.__class__ is not Ref:
                    return obj
            else:
                obj = self.natives.alloc(self, cls, args, kw)
            init = self.class_lookup(cls, "__init__")
            if init is not None:
                self.call(init, [obj] + list(args), kw)
            elif (args or kw) and new is None and self.o(cls).data.base == "object":
                self.raise_("TypeError", f"{self.o(cls).data.name}() takes no arguments")
            return obj
        finally:
            self.nat -= 1

    # ------------------------------------------------------------------ generators, coroutines
    def resume(self, ref, val=None, exc=None):
        """Resume generator/coroutine: returns ('yield', v) or ('ret', v); raises PyExc."""
        h = self.w(ref)
        f = h.data
        if f is None:
            if exc is not None:
                raise exc
            if h.kind == "coro":
                self.raise_("RuntimeError", "cannot reuse already awaited coroutine")
            return ("ret", None)
        if f == "running":
            self.raise_("ValueError", "generator already executing")
        h.data = "running"
        if exc is not None:
            sub = self.yield_from(f)
            if sub is not None:
                try:
                    r = self.throw_into(sub, exc)
                except PyExc as e:
                    return self._gen_run(ref, f, None, e)
                if r[0] == "yield":
                    self.w(ref).data = f
                    return r
                # sub-iterator returned: continue after the SEND loop
                pc = f.pc
                while f.code.ins[pc][0] != "SEND":
                    pc -= 1
                f.pc = f.code.ins[pc][1]
                f.stack.append(r[1])
                return self._gen_run(ref, f, NULL, None)
            return self._gen_run(ref, f, None, exc)
        return self._gen_run(ref, f, val, None)

    def yield_from(self, f):
        if f.pc > 0 and f.code.ins[f.pc - 1][0] == "YIELD_VALUE":
            op, arg = f.code.ins[f.pc]
            if op == "RESUME" and (arg & 3) >= 2:
                return f.stack[-1]
        return None

    def throw_into(self, sub, exc):
        if sub.__class__ is Ref:
            k = self.o(sub).kind
            if k in ("gen", "coro"):
                return self.resume(sub, None, exc)
            if k == "asend":
                return self.natives.asend_throw(self, sub, exc)
        raise exc

    def _gen_run(self, ref, f, val, exc):
        try:
            if exc is not None:
                r = self.run(f, exc)
            else:
                if val is not NULL:
                    f.stack.append(val)
                r = self.run(f)
        except PyExc:
            self.w(ref).data = None
            raise
        except BaseException:
            self.w(ref).data = None
            raise
        if r[0] == "ret":
            self.w(ref).data = None
        else:
            self.w(ref).data = f
        return r

    def run(self, f, exc=None):
        active = self.active
        active.append(f)
        ins = f.code.ins
        n = 0
        try:
            if exc is not None:
                pc = f.pc - 1 if f.pc > 0 else 0
                self.unwind(f, pc, exc)
            H = HANDLERS
            inrepo = f.code.inrepo
            lines = f.code.lines
            seen = self.lines_seen
            file = f.code.file
            while True:
                pc = f.pc
                op, arg = ins[pc]
                f.pc = pc + 1
                n += 1
                if inrepo:
                    seen.add((file, lines[pc]))
                try:
                    r = H[op](self, f, arg)
                except PyExc as e:
                    self.mark_exc(e.val)
                    self.unwind(f, pc, e)
                    continue
                if r is not None:
                    return r
                if n > 4000:
                    self.steps += n
                    n = 0
                    if time.time() > self.deadline:
                        raise Broken("time limit reached")
                    if self.steps > self.step_limit:
                        raise Broken(f"step limit exceeded in {f.code.qualname}")
        except KeyError as e:
            if e.args and e.args[0] == ins[min(f.pc - 1, len(ins) - 1)][0]:
                raise Broken(f"unsupported opcode {e.args[0]} in {f.code.qualname}")
            raise
        finally:
            active.pop()
            self.steps += n

    def unwind(self, f, pc, e):
        h = f.code.handler(pc)
        if h is None:
            raise e
        target, depth, lasti = h
        del f.stack[depth:]
        if lasti:
            f.stack.append(pc)
        f.stack.append(e.val)
        f.pc = target
        f.kw = ()

    def iterate(self, v):
        """Host list of the elements of an iterable abstract value."""
        t = v.__class__
        if t is tuple:
            return list(v)
        if t is str:
            return list(v)
        if t is VSub and v.val.__class__ in (tuple, str):
            f = self.class_lookup(v.cls, "__iter__")
            if f is None or f.__class__ is NFunc:
                return list(v.val)
        if t is Ref:
            h = self.o(v)
            if h.kind == "list" and not any(x.__class__ is Star for x in h.data) and \
                    self.class_lookup(h.cls, "__iter__").__class__ is NFunc:
                return list(h.data)
        it = self.get_iter(v)
        out = []
        while True:
            r = self.iter_next(it)
            if r is None:
                return out
            out.append(r[0])
            if len(out) > 5000:
                raise Broken("unbounded iteration in a native operation")

    def get_iter(self, v):
        return self.natives.get_iter(self, v)

    def iter_next(self, it):
        """(value,) or None when exhausted."""
        return self.natives.iter_next(self, it)

    # ------------------------------------------------------------------ modules
    def find_source(self, name):
        for prefix, d in self.roots:
            rel = name.replace(".", "/")
            if prefix and not (name == prefix or name.startswith(prefix + ".")):
                continue
            base = os.path.join(d, rel)
            if prefix == "":
                base = os.path.join(d, name)      # models: dotted file names
            if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
                return os.path.join(base, "__init__.py"), True, bool(prefix) and prefix != "specs"
            if os.path.isfile(base + ".py"):
                return base + ".py", False, bool(prefix) and prefix != "specs"
            if prefix and os.path.isdir(base):
                return None, True, True
        return None, False, False

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        parent = None
        if "." in name:
            parent = self.import_module(name.rsplit(".", 1)[0])
        path, ispkg, inrepo = self.find_source(name)
        ref = self.new("module", None, {"__name__": name, "__doc__": None,
                                        "__package__": name if ispkg else name.rpartition(".")[0]})
        if path is None and not ispkg:
            if any(p and name.startswith(p + ".") for p, _ in self.roots):
                self.raise_("ModuleNotFoundError", f"No module named {name!r}")
            self.w(ref).data = "opaque"
            self.modules[name] = ref
        else:
            self.modules[name] = ref
            if path is not None:
                self.exec_module(ref, path, inrepo)
        if parent is not None:
            self.w(parent).attrs[name.rsplit(".", 1)[1]] = ref
        return self.modules[name]

    def exec_module(self, ref, path, inrepo):
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        self.sources[path] = src
        self.w(ref).attrs["__file__"] = path
        rel = path
        for prefix, d in self.roots:
            if prefix and path.startswith(d + "/"):
                rel = path[len(d) + 1:]
        try:
            code = CodeInfo(compile(src, rel, "exec", dont_inherit=True), inrepo)
        except SyntaxError as e:
            raise Broken(f"cannot compile {path}: {e}")
        if "task_done" in src:
            self.uses_done.add(rel)
        f = Frame(code, [UNBOUND] * code.nlocalsplus, ref.oid, (), ns=ref)
        r = self.run(f)
        return r


Num_ = N.Num

# ---------------------------------------------------------------------- opcode handlers
HANDLERS = {}


def op(*names):
    def deco(fn):
        for n in names:
            HANDLERS[n] = fn
        return fn
    return deco


@op("NOP", "RESUME", "EXTENDED_ARG", "CACHE")
def _(m, f, a):
    pass


@op("POP_TOP", "END_FOR_")
def _(m, f, a):
    f.stack.pop()


@op("END_FOR")
def _(m, f, a):
    f.stack.pop()
    f.stack.pop()


@op("PUSH_NULL")
def _(m, f, a):
    f.stack.append(NULL)


@op("COPY")
def _(m, f, a):
    f.stack.append(f.stack[-a])


@op("SWAP")
def _(m, f, a):
    s = f.stack
    s[-1], s[-a] = s[-a], s[-1]


@op("LOAD_CONST")
def _(m, f, a):
    c = f.code.consts[a]
    if c.__class__ is tuple and c and c[0] == "__frozenset__" and len(c) == 2:
        c = m.mkset(c[1], "frozenset")
    f.stack.append(c)


@op("RETURN_CONST")
def _(m, f, a):
    return ("ret", f.code.consts[a])


@op("RETURN_VALUE")
def _(m, f, a):
    return ("ret", f.stack.pop())


@op("LOAD_FAST", "LOAD_FAST_CHECK")
def _(m, f, a):
    v = f.locals[a]
    if v is UNBOUND:
        m.raise_("UnboundLocalError", f.code.localsplus[a])
    f.stack.append(v)


@op("LOAD_FAST_AND_CLEAR")
def _(m, f, a):
    f.stack.append(f.locals[a])
    f.locals[a] = UNBOUND


@op("STORE_FAST")
def _(m, f, a):
    f.locals[a] = f.stack.pop()


@op("DELETE_FAST")
def _(m, f, a):
    if f.locals[a] is UNBOUND:
        m.raise_("UnboundLocalError", f.code.localsplus[a])
    f.locals[a] = UNBOUND


@op("MAKE_CELL")
def _(m, f, a):
    f.locals[a] = m.new("cell", None, None, [f.locals[a]])


@op("COPY_FREE_VARS")
def _(m, f, a):
    n = f.code.nlocalsplus - a
    for i, c in enumerate(f.closure):
        f.locals[n + i] = c


@op("LOAD_CLOSURE")
def _(m, f, a):
    f.stack.append(f.locals[a])


@op("LOAD_DEREF")
def _(m, f, a):
    v = m.o(f.locals[a]).data[0]
    if v is UNBOUND:
        m.raise_("NameError", f"cannot access free variable {f.code.localsplus[a]!r}")
    f.stack.append(v)


@op("STORE_DEREF")
def _(m, f, a):
    m.w(f.locals[a]).data[0] = f.stack.pop()


@op("DELETE_DEREF")
def _(m, f, a):
    m.w(f.locals[a]).data[0] = UNBOUND


@op("LOAD_FROM_DICT_OR_DEREF")
def _(m, f, a):
    ns = f.stack.pop()
    name = f.code.localsplus[a]
    d = ns_dict(m, ns)
    if name in d:
        f.stack.append(d[name])
    else:
        f.stack.append(m.o(f.locals[a]).data[0])


def ns_dict(m, ns):
    h = m.o(ns)
    return h.attrs


@op("LOAD_LOCALS")
def _(m, f, a):
    f.stack.append(f.ns)


def load_global(m, f, name):
    g = m.o(Ref(f.globals)).attrs
    if name in g:
        return g[name]
    b = m.builtins.get(name, UNBOUND)
    if b is UNBOUND:
        m.raise_("NameError", f"name {name!r} is not defined")
    return b


@op("LOAD_GLOBAL")
def _(m, f, a):
    if a & 1:
        f.stack.append(NULL)
    f.stack.append(load_global(m, f, f.code.names[a >> 1]))


@op("LOAD_NAME")
def _(m, f, a):
    name = f.code.names[a]
    if f.ns is not None:
        d = m.o(f.ns).attrs
        if name in d:
            f.stack.append(d[name])
            return
    f.stack.append(load_global(m, f, name))


@op("LOAD_FROM_DICT_OR_GLOBALS")
def _(m, f, a):
    ns = f.stack.pop()
    name = f.code.names[a]
    d = ns_dict(m, ns)
    f.stack.append(d[name] if name in d else load_global(m, f, name))


@op("STORE_NAME")
def _(m, f, a):
    m.w(f.ns).attrs[f.code.names[a]] = f.stack.pop()


@op("DELETE_NAME")
def _(m, f, a):
    m.w(f.ns).attrs.pop(f.code.names[a], None)


@op("STORE_GLOBAL")
def _(m, f, a):
    m.w(Ref(f.globals)).attrs[f.code.names[a]] = f.stack.pop()


@op("DELETE_GLOBAL")
def _(m, f, a):
    m.w(Ref(f.globals)).attrs.pop(f.code.names[a], None)


@op("LOAD_ATTR")
def _(m, f, a):
    v = f.stack.pop()
    r = m.getattr(v, f.code.names[a >> 1])
    if a & 1:
        f.stack.append(NULL)
    f.stack.append(r)


@op("LOAD_SUPER_ATTR")
def _(m, f, a):
    self_ = f.stack.pop()
    cls = f.stack.pop()
    f.stack.pop()
    sup = m.natives.make_super(m, cls, self_)
    r = m.getattr(sup, f.code.names[a >> 2])
    if a & 1:
        f.stack.append(NULL)
    f.stack.append(r)


@op("STORE_ATTR")
def _(m, f, a):
    o = f.stack.pop()
    v = f.stack.pop()
    m.setattr(o, f.code.names[a], v)


@op("DELETE_ATTR")
def _(m, f, a):
    m.delattr(f.stack.pop(), f.code.names[a])


@op("KW_NAMES")
def _(m, f, a):
    f.kw = f.code.consts[a]


@op("CALL")
def _(m, f, a):
    s = f.stack
    n = len(s) - a
    args = s[n:]
    fn = s[n - 2]
    c = s[n - 1]
    del s[n - 2:]
    if fn is NULL:
        fn = c
    else:
        args.insert(0, c)
    kw = f.kw
    if kw:
        f.kw = ()
        k = len(kw)
        kwargs = dict(zip(kw, args[-k:]))
        args = args[:-k]
    else:
        kwargs = {}
    s.append(m.call(fn, args, kwargs))


@op("CALL_FUNCTION_EX")
def _(m, f, a):
    s = f.stack
    kwargs = {}
    if a & 1:
        d = s.pop()
        for k, v in m.o(d).data.values() if d.__class__ is Ref and m.o(d).kind == "dict" else []:
            kwargs[k] = v
    args = m.iterate(s.pop())
    fn = s.pop()
    if s.pop() is not NULL:
        raise Broken("CALL_FUNCTION_EX layout")
    s.append(m.call(fn, args, kwargs))


@op("MAKE_FUNCTION")
def _(m, f, a):
    s = f.stack
    code = s.pop()
    closure = s.pop() if a & 8 else ()
    if a & 4:
        s.pop()
    kwd = ()
    if a & 2:
        kd = m.o(s.pop()).data
        kwd = tuple((k, v) for k, v in kd.values())
    dfl = s.pop() if a & 1 else ()
    s.append(m.new("func", None, None, FuncData(code, f.globals, dfl, kwd, closure, code.name)))


@op("LOAD_BUILD_CLASS")
def _(m, f, a):
    f.stack.append(m.natives.BUILD_CLASS)


@op("LOAD_ASSERTION_ERROR")
def _(m, f, a):
    f.stack.append(m.classes["AssertionError"])


@op("SETUP_ANNOTATIONS")
def _(m, f, a):
    at = m.w(f.ns).attrs
    if "__annotations__" not in at:
        at["__annotations__"] = m.mkdict()


@op("BUILD_TUPLE")
def _(m, f, a):
    s = f.stack
    n = len(s) - a
    v = tuple(s[n:])
    del s[n:]
    s.append(v)


@op("BUILD_LIST")
def _(m, f, a):
    s = f.stack
    n = len(s) - a
    v = s[n:]
    del s[n:]
    s.append(m.mklist(v))


@op("BUILD_SET")
def _(m, f, a):
    s = f.stack
    n = len(s) - a
    v = s[n:]
    del s[n:]
    r = m.mkset()
    for x in v:
        m.natives.set_add(m, r, x)
    s.append(r)


@op("BUILD_MAP")
def _(m, f, a):
    s = f.stack
    n = len(s) - 2 * a
    v = s[n:]
    del s[n:]
    r = m.mkdict()
    for i in range(a):
        m.natives.dict_set(m, r, v[2 * i], v[2 * i + 1])
    s.append(r)


@op("BUILD_CONST_KEY_MAP")
def _(m, f, a):
    s = f.stack
    keys = s.pop()
    n = len(s) - a
    v = s[n:]
    del s[n:]
    r = m.mkdict()
    for k, x in zip(keys, v):
        m.natives.dict_set(m, r, k, x)
    s.append(r)


@op("BUILD_STRING")
def _(m, f, a):
    s = f.stack
    n = len(s) - a
    v = s[n:]
    del s[n:]
    s.append(m.natives.str_concat(m, v))


@op("FORMAT_VALUE")
def _(m, f, a):
    spec = f.stack.pop() if a & 4 else None
    v = f.stack.pop()
    f.stack.append(m.natives.format_value(m, v, a & 3, spec))


@op("BUILD_SLICE")
def _(m, f, a):
    s = f.stack
    step = s.pop() if a == 3 else None
    stop = s.pop()
    start = s.pop()
    s.append(m.new("slice", m.classes["slice"], None, (start, stop, step)))


@op("LIST_APPEND")
def _(m, f, a):
    v = f.stack.pop()
    m.w(f.stack[-a]).data.append(v)


@op("SET_ADD")
def _(m, f, a):
    v = f.stack.pop()
    m.natives.set_add(m, f.stack[-a], v)


@op("MAP_ADD")
def _(m, f, a):
    v = f.stack.pop()
    k = f.stack.pop()
    m.natives.dict_set(m, f.stack[-a], k, v)


@op("LIST_EXTEND")
def _(m, f, a):
    v = f.stack.pop()
    m.natives.list_extend(m, f.stack[-a], v)


@op("SET_UPDATE")
def _(m, f, a):
    v = f.stack.pop()
    for x in m.iterate(v):
        m.natives.set_add(m, f.stack[-a], x)


@op("DICT_UPDATE")
def _(m, f, a):
    v = f.stack.pop()
    m.natives.dict_update(m, f.stack[-a], v)


@op("DICT_MERGE")
def _(m, f, a):
    v = f.stack.pop()
    d = f.stack[-a]
    if v.__class__ is Ref and m.o(v).kind == "dict":
        for k in m.o(v).data:
            if k in m.o(d).data:
                m.raise_("TypeError", "got multiple values for keyword argument")
    m.natives.dict_update(m, d, v)


@op("UNPACK_SEQUENCE")
def _(m, f, a):
    v = f.stack.pop()
    if v.__class__ is Sym:
        items = [m.unknown_child(v, f"[{i}]") for i in range(a)]
    else:
        items = m.iterate(v)
    if len(items) != a:
        m.raise_("ValueError", "not enough values to unpack" if len(items) < a else "too many values to unpack")
    f.stack.extend(reversed(items))


@op("UNPACK_EX")
def _(m, f, a):
    items = m.iterate(f.stack.pop())
    before, after = a & 0xFF, a >> 8
    if len(items) < before + after:
        m.raise_("ValueError", "not enough values to unpack")
    mid = items[before:len(items) - after]
    tail = items[len(items) - after:] if after else []
    f.stack.extend(reversed(tail))
    f.stack.append(m.mklist(mid))
    f.stack.extend(reversed(items[:before]))


@op("BINARY_SUBSCR")
def _(m, f, a):
    k = f.stack.pop()
    c = f.stack.pop()
    f.stack.append(m.natives.getitem(m, c, k))


@op("STORE_SUBSCR")
def _(m, f, a):
    k = f.stack.pop()
    c = f.stack.pop()
    v = f.stack.pop()
    m.natives.setitem(m, c, k, v)


@op("DELETE_SUBSCR")
def _(m, f, a):
    k = f.stack.pop()
    c = f.stack.pop()
    m.natives.delitem(m, c, k)


@op("BINARY_SLICE")
def _(m, f, a):
    stop = f.stack.pop()
    start = f.stack.pop()
    c = f.stack.pop()
    f.stack.append(m.natives.getitem(m, c, m.new("slice", m.classes["slice"], None, (start, stop, None))))


@op("STORE_SLICE")
def _(m, f, a):
    stop = f.stack.pop()
    start = f.stack.pop()
    c = f.stack.pop()
    v = f.stack.pop()
    m.natives.setitem(m, c, m.new("slice", m.classes["slice"], None, (start, stop, None)), v)


_BIN = ["+", "&", "//", "<<", "@", "*", "%", "|", "**", ">>", "-", "/", "^"]


@op("BINARY_OP")
def _(m, f, a):
    b = f.stack.pop()
    x = f.stack.pop()
    if a >= 13:
        f.stack.append(m.natives.inplace(m, _BIN[a - 13], x, b))
    else:
        f.stack.append(m.natives.binop(m, _BIN[a], x, b))


@op("UNARY_NOT")
def _(m, f, a):
    f.stack.append(not m.truth(f.stack.pop()))


@op("UNARY_NEGATIVE")
def _(m, f, a):
    v = f.stack.pop()
    f.stack.append(m.natives.neg(m, v))


@op("UNARY_INVERT")
def _(m, f, a):
    v = f.stack.pop()
    if v.__class__ in (int, bool):
        f.stack.append(~v)
    else:
        f.stack.append(m.unknown(m.fresh("invert")))


@op("COMPARE_OP")
def _(m, f, a):
    b = f.stack.pop()
    x = f.stack.pop()
    f.stack.append(m.compare(("<", "<=", "==", "!=", ">", ">=")[a >> 4], x, b))


@op("IS_OP")
def _(m, f, a):
    b = f.stack.pop()
    x = f.stack.pop()
    r = m.is_(x, b)
    f.stack.append((not r) if a else r)


@op("CONTAINS_OP")
def _(m, f, a):
    c = f.stack.pop()
    x = f.stack.pop()
    r = m.contains(x, c)
    f.stack.append((not r) if a else r)


@op("JUMP_FORWARD", "JUMP_BACKWARD_NO_INTERRUPT")
def _(m, f, a):
    f.pc = a


@op("JUMP_BACKWARD")
def _(m, f, a):
    f.pc = a
    if m.loop_hook:
        m.loop_hook(f)


@op("POP_JUMP_IF_FALSE")
def _(m, f, a):
    v = f.stack.pop()
    if v is False or (v is not True and not m.truth(v)):
        f.pc = a


@op("POP_JUMP_IF_TRUE")
def _(m, f, a):
    v = f.stack.pop()
    if v is True or (v is not False and m.truth(v)):
        f.pc = a


@op("POP_JUMP_IF_NONE")
def _(m, f, a):
    if m.is_(f.stack.pop(), None):
        f.pc = a


@op("POP_JUMP_IF_NOT_NONE")
def _(m, f, a):
    if not m.is_(f.stack.pop(), None):
        f.pc = a


@op("GET_ITER")
def _(m, f, a):
    f.stack.append(m.get_iter(f.stack.pop()))


@op("FOR_ITER")
def _(m, f, a):
    r = m.iter_next(f.stack[-1])
    if r is None:
        # jump to END_FOR, which pops the iterator and the (absent) value
        f.stack.append(None)
        f.pc = a
    else:
        f.stack.append(r[0])


@op("GET_LEN")
def _(m, f, a):
    f.stack.append(m.natives.length(m, f.stack[-1]))


@op("IMPORT_NAME")
def _(m, f, a):
    fromlist = f.stack.pop()
    level = f.stack.pop()
    name = f.code.names[a]
    g = m.o(Ref(f.globals)).attrs
    if level:
        pkg = g["__package__"]
        for _ in range(level - 1):
            pkg = pkg.rpartition(".")[0]
        name = f"{pkg}.{name}" if name else pkg
    mod = m.import_module(name)
    if fromlist:
        for x in fromlist:
            h = m.o(mod)
            if x not in h.attrs and x != "*":
                p, isp, _r = m.find_source(f"{name}.{x}")
                if p or isp:
                    m.import_module(f"{name}.{x}")
        f.stack.append(mod)
    else:
        f.stack.append(m.modules[name.split(".")[0]])


@op("IMPORT_FROM")
def _(m, f, a):
    mod = f.stack[-1]
    name = f.code.names[a]
    h = m.o(mod)
    if name in h.attrs:
        f.stack.append(h.attrs[name])
    elif h.data == "opaque":
        f.stack.append(m.unknown(f"{h.attrs['__name__']}.{name}"))
    else:
        sub = f"{h.attrs['__name__']}.{name}"
        if sub in m.modules:
            f.stack.append(m.modules[sub])
        elif real_has(h.attrs["__name__"], name):
            f.stack.append(m.unknown(sub))
        else:
            m.raise_("ImportError", f"cannot import name {name!r} from {h.attrs['__name__']!r}")


@op("CALL_INTRINSIC_1")
def _(m, f, a):
    v = f.stack.pop()
    if a == 2:      # import *
        h = m.o(v)
        for k, x in h.attrs.items():
            if not k.startswith("_"):
                m.w(f.ns).attrs[k] = x
        f.stack.append(None)
    elif a == 3:    # stopiteration error
        if m.exc_is(v, "StopIteration") or f.code.flags & 0x200 and m.exc_is(v, "StopAsyncIteration"):
            e = m.exc("RuntimeError", "generator raised StopIteration")
            m.w(e.val).attrs["__cause__"] = v
            f.stack.append(e.val)
        else:
            f.stack.append(v)
    elif a == 4:    # async gen wrap
        f.stack.append(m.new("wrapped", None, None, [v]))
    elif a == 5:    # unary positive
        f.stack.append(v)
    elif a == 6:    # list to tuple
        f.stack.append(tuple(m.iterate(v)))
    else:
        f.stack.append(m.unknown("intrinsic1"))


@op("CALL_INTRINSIC_2")
def _(m, f, a):
    f.stack.pop()
    f.stack.pop()
    f.stack.append(m.unknown("intrinsic2"))


# ---- exceptions
@op("PUSH_EXC_INFO")
def _(m, f, a):
    e = f.stack.pop()
    f.stack.append(f.exc)
    f.stack.append(e)
    f.exc = e


@op("POP_EXCEPT")
def _(m, f, a):
    f.exc = f.stack.pop()


@op("CHECK_EXC_MATCH")
def _(m, f, a):
    c = f.stack.pop()
    e = f.stack[-1]
    f.stack.append(m.isinstance_(e, c))


@op("RERAISE")
def _(m, f, a):
    e = f.stack.pop()
    raise PyExc(e)


def make_exc(m, v):
    if v.__class__ is Ref:
        h = m.o(v)
        if h.kind == "class" and m.issub(v, m.classes["BaseException"]):
            return m.call(v, [], {})
        if h.kind == "inst" and m.issub(h.cls, m.classes["BaseException"]):
            return v
    if v.__class__ is Sym:
        return m.exc("Exception", v).val
    m.raise_("TypeError", "exceptions must derive from BaseException")


@op("RAISE_VARARGS")
def _(m, f, a):
    cause = NULL
    if a == 2:
        cause = f.stack.pop()
    if a == 0:
        e = f.exc
        if e is None:
            for g in reversed(m.active):
                if g.exc is not None:
                    e = g.exc
                    break
                if g.gen is not None:
                    break
        if e is None:
            m.raise_("RuntimeError", "No active exception to reraise")
        raise PyExc(e)
    e = make_exc(m, f.stack.pop())
    if cause is not NULL:
        if cause is not None:
            cause = make_exc(m, cause)
        m.w(e).attrs["__cause__"] = cause
        m.w(e).attrs["__suppress_context__"] = True
    if f.exc is not None and f.exc != e:
        m.w(e).attrs["__context__"] = f.exc
    m.mark_exc(e)
    raise PyExc(e)


@op("WITH_EXCEPT_START")
def _(m, f, a):
    s = f.stack
    e = s[-1]
    ex = s[-4]
    s.append(m.call(ex, [m.type_of(e), e, None], {}))


@op("BEFORE_WITH")
def _(m, f, a):
    cm = f.stack.pop()
    ex = special(m, cm, "__exit__")
    en = special(m, cm, "__enter__")
    f.stack.append(ex)
    f.stack.append(m.call(en, [], {}))


def special(m, obj, name):
    if obj.__class__ is Sym:
        return m.unknown_child(obj, name)
    cls = m.type_of(obj)
    found, a, dc = m.class_lookup_d(cls, name)
    if not found:
        m.check_modelled(cls, name)
        m.raise_("TypeError", f"{m.o(cls).data.name!r} object does not support {name}")
    return m.bind(a, obj, cls)


@op("BEFORE_ASYNC_WITH")
def _(m, f, a):
    cm = f.stack.pop()
    ex = special(m, cm, "__aexit__")
    en = special(m, cm, "__aenter__")
    f.stack.append(ex)
    f.stack.append(m.call(en, [], {}))


# ---- generators / await
@op("RETURN_GENERATOR")
def _(m, f, a):
    fl = f.code.flags
    kind = "coro" if fl & CO_COROUTINE else ("agen" if fl & CO_ASYNC_GENERATOR else "gen")
    r = m.new(kind, None, None, None)
    f.gen = r
    m.w(r).data = f
    return ("ret", r)


@op("YIELD_VALUE")
def _(m, f, a):
    return ("yield", f.stack.pop())


@op("GET_AWAITABLE")
def _(m, f, a):
    f.stack.append(m.natives.get_awaitable(m, f.stack.pop()))


@op("GET_YIELD_FROM_ITER")
def _(m, f, a):
    v = f.stack.pop()
    if not (v.__class__ is Ref and m.o(v).kind in ("gen", "coro")):
        v = m.get_iter(v)
    f.stack.append(v)


@op("SEND")
def _(m, f, a):
    v = f.stack.pop()
    r = m.natives.send(m, f.stack[-1], v)
    f.stack.append(r[1])
    if r[0] == "ret":
        f.pc = a


@op("END_SEND")
def _(m, f, a):
    v = f.stack.pop()
    f.stack.pop()
    f.stack.append(v)


@op("CLEANUP_THROW")
def _(m, f, a):
    e = f.stack.pop()
    if m.exc_is(e, "StopIteration"):
        f.stack.pop()
        f.stack.pop()
        f.stack.append(None)
        args = m.o(e).attrs["args"]
        f.stack.append(args[0] if args else None)
        return
    raise PyExc(e)


@op("GET_AITER")
def _(m, f, a):
    v = f.stack.pop()
    if v.__class__ is Ref and m.o(v).kind == "agen":
        f.stack.append(v)
    else:
        f.stack.append(m.call(special(m, v, "__aiter__"), [], {}))


@op("GET_ANEXT")
def _(m, f, a):
    v = f.stack[-1]
    if v.__class__ is Ref and m.o(v).kind == "agen":
        f.stack.append(m.natives.mk_asend(m, v))
    else:
        f.stack.append(m.natives.get_awaitable(m, m.call(special(m, v, "__anext__"), [], {})))


@op("END_ASYNC_FOR")
def _(m, f, a):
    e = f.stack.pop()
    f.stack.pop()
    if not m.exc_is(e, "StopAsyncIteration"):
        raise PyExc(e)


# ---- pattern matching (minimal)
@op("MATCH_MAPPING")
def _(m, f, a):
    v = f.stack[-1]
    f.stack.append(v.__class__ is Ref and m.o(v).kind == "dict")


@op("MATCH_SEQUENCE")
def _(m, f, a):
    v = f.stack[-1]
    f.stack.append(v.__class__ is tuple or (v.__class__ is VSub and v.val.__class__ is tuple) or
                   (v.__class__ is Ref and m.o(v).kind == "list"))


@op("MATCH_KEYS")
def _(m, f, a):
    keys = f.stack[-1]
    d = f.stack[-2]
    if all(m.natives.has_key(m, d, k) for k in keys):
        f.stack.append(tuple(m.natives.getitem(m, d, k) for k in keys))
    else:
        f.stack.append(None)


@op("MATCH_CLASS")
def _(m, f, a):
    names = f.stack.pop()
    cls = f.stack.pop()
    v = f.stack.pop()
    if not m.isinstance_(v, cls):
        f.stack.append(None)
        return
    out = []
    if a:
        ma = m.class_lookup(cls, "__match_args__")
        if ma is None:
            ma = ()
            if a == 1:
                out.append(v)
        for i in range(min(a, len(ma))):
            out.append(m.getattr(v, ma[i]))
    for nm in names:
        ok, x = m.getattr_opt(v, nm)
        if not ok:
            f.stack.append(None)
            return
        out.append(x)
    f.stack.append(tuple(out))
