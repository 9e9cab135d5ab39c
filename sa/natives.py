"""Abstract models of the built-in types, functions and of futures/tasks/timers."""
import functools
import json as _json
from fractions import Fraction

from . import num as N
from .core import *
from .core import NULL, UNBOUND

Num = N.Num
BUILD_CLASS = None
OBJECT_NEW = None
POINT = NFunc("POINT", None)       # yielded by sa.point(): a segment boundary, not a loop round
NOTIMPL = NFunc("NotImplemented", None)
_REG = {}          # (class, method) -> fn
_FUN = {}          # builtin functions
_MOD = {}          # native module functions: "module.name" -> fn


def meth(cls, *names):
    def deco(fn):
        for n in names:
            _REG[(cls, n)] = fn
        return fn
    return deco


def fun(*names):
    def deco(fn):
        for n in names:
            _FUN[n] = fn
        return fn
    return deco


def modfun(*names):
    def deco(fn):
        for n in names:
            _MOD[n] = fn
        return fn
    return deco


def install(m):
    C = m.classes
    obj = m.new("class", None, {})
    m.w(obj).data = ClassDataMk("object", (), (obj,), "object")
    C["object"] = obj

    def mk(name, base, parent="object", key=None):
        C[key or name] = m.mkclass(name, (C[parent],), base)

    for n, b in [("NoneType", "none"), ("int", "int"), ("float", "float"), ("str", "str"), ("bytes", "bytes"),
                 ("tuple", "tuple"), ("list", "list"), ("dict", "dict"), ("set", "set"), ("frozenset", "frozenset"),
                 ("type", "type"), ("function", "function"), ("coroutine", "coroutine"), ("generator", "generator"),
                 ("iterator", "iterator"), ("async_generator", "async_generator"), ("module", "module"),
                 ("cell", "cell"), ("builtin_function_or_method", "function"), ("method", "function"),
                 ("complex", "complex"), ("ellipsis", "object"), ("slice", "slice"), ("property", "property"),
                 ("staticmethod", "staticmethod"), ("classmethod", "classmethod"), ("super", "super"),
                 ("Future", "future"), ("dict_view", "view"), ("range", "range"), ("Handle", "object")]:
        mk(n, b)
    mk("bool", "bool", "int")
    mk("deque", "list")
    mk("Task", "task", "Future")
    from .machine import EXC_TREE
    for n, p in EXC_TREE.items():
        m.classes[n] = m.mkclass(n, (C[p],), "exc")
    C["IOError"] = C["EnvironmentError"] = C["OSError"]
    for n in ("Hashable", "Callable", "Awaitable", "Coroutine", "Iterable", "Iterator", "Mapping", "MutableMapping",
              "Sequence", "MutableSequence", "Collection", "Set", "Sized", "Container", "AsyncIterator",
              "AsyncIterable", "Generator", "Number", "Real", "Integral"):
        C["abc." + n] = m.mkclass(n, (C["object"],), "abc")
    for (cls, name), fn in _REG.items():
        m.o(C[cls]).attrs[name] = NFunc(f"{cls}.{name}", fn)
    at = m.w(C["dict"]).attrs
    at["fromkeys"] = m.new("classmethod", C["classmethod"], None, at["fromkeys"])
    B = m.builtins
    for n, fn in _FUN.items():
        B[n] = NFunc(n, fn)
    for n in ("int", "float", "str", "bytes", "tuple", "list", "dict", "set", "frozenset", "type", "bool", "object",
              "complex", "property", "staticmethod", "classmethod", "super", "slice", "range"):
        B[n] = C[n]
    for n in EXC_TREE:
        if n not in ("CancelledError", "InvalidStateError"):
            B[n] = C[n]
    B["IOError"] = B["EnvironmentError"] = C["OSError"]
    B["NotImplemented"] = NOTIMPL
    B["Ellipsis"] = Ellipsis
    B["__debug__"] = True
    B["__name__"] = "builtins"
    global BUILD_CLASS
    BUILD_CLASS = NFunc("__build_class__", build_class)
    # native helper module for the interpreted models
    ref = m.new("module", None, {"__name__": "_sa"})
    at = m.w(ref).attrs
    for n, fn in _MOD.items():
        at[n] = NFunc(n, fn)
    for n in ("Future", "Task", "CancelledError", "InvalidStateError", "TimeoutError", "deque", "Handle", "function",
              "coroutine", "generator", "async_generator", "builtin_function_or_method", "method", "module",
              "NoneType"):
        at[n] = C[n]
    for n in list(C):
        if n.startswith("abc."):
            at["abc_" + n[4:]] = C[n]
    at["NamedTuple"] = NAMEDTUPLE
    m.modules["_sa"] = ref
    b = m.new("module", None, {"__name__": "builtins"})
    m.w(b).attrs.update(B)
    m.modules["builtins"] = b


def ClassDataMk(name, bases, mro, base):
    return ClassData(name, bases, mro, base)


# ---------------------------------------------------------------------- allocation
def alloc(m, cls, args, kw):
    base = m.o(cls).data.base
    if base == "exc":
        return m.new("inst", cls, {"args": tuple(args), "__cause__": None, "__context__": None})
    if base == "list":
        return m.new("list", cls, {} if user(m, cls) else None, [])
    if base == "dict":
        return m.new("dict", cls, {} if user(m, cls) else None, {})
    if base in ("set", "frozenset"):
        return m.new("set", cls, {} if user(m, cls) else None, {})
    if base == "future":
        return m.new("future", cls, {}, new_future())
    if base == "task":
        return m.new("task", cls, {}, new_future())
    if base in ("object", "abc"):
        return m.new("inst", cls, {})
    raise Broken(f"cannot instantiate native class {m.o(cls).data.name}")


def user(m, cls):
    return m.o(cls).data.module is not None


def new_future():
    return {"st": "P", "res": None, "exc": None, "cbs": (), "coro": None, "waiter": None, "must": False,
            "ncan": 0, "retr": False}


@meth("object", "__new__")
def _(m, a, kw):
    return alloc(m, a[0], a[1:], kw)


@meth("object", "__init__")
def _(m, a, kw):
    return None


@meth("object", "__init_subclass__")
def _(m, a, kw):
    return None


@meth("BaseException", "__init__")
def _(m, a, kw):
    m.w(a[0]).attrs["args"] = tuple(a[1:])
    if len(a) == 3 and (m.exc_is(a[0], "ExceptionGroup") or m.exc_is(a[0], "BaseExceptionGroup")):
        m.w(a[0]).attrs.update(message=a[1], exceptions=tuple(m.seq_items(a[2]) or ()))


@meth("BaseException", "with_traceback")
def _(m, a, kw):
    return a[0]


@meth("BaseException", "add_note")
def _(m, a, kw):
    notes = m.o(a[0]).attrs.get("__notes__")
    if notes is None:
        m.w(a[0]).attrs["__notes__"] = notes = m.new("list", None, None, [])
    m.w(notes).data.append(a[1])


@meth("BaseException", "__str__")
def _(m, a, kw):
    return exc_str(m, a[0])


@meth("BaseException", "__repr__")
def _(m, a, kw):
    return repr_items(m, m.o(m.type_of(a[0])).data.name + "(", m.o(a[0]).attrs.get("args", ()), ")")


def wrap(m, cls, native, val):
    """Value of an immutable builtin, as an instance of cls."""
    if cls == m.classes[native]:
        return val
    return VSub(cls, val)


def base_val(v):
    return v.val if v.__class__ is VSub else v


# ---------------------------------------------------------------------- classes
class _NT:
    pass


NAMEDTUPLE = NFunc("NamedTuple", None)


def build_class(m, a, kw):
    body, name = a[0], a[1]
    bases = list(a[2:])
    meta = kw.pop("metaclass", None)
    is_nt = False
    rb = []
    for b in bases:
        if b is NAMEDTUPLE:
            is_nt = True
        elif b.__class__ is Ref and m.o(b).kind == "class":
            rb.append(b)
        elif b.__class__ is Sym or (b.__class__ is Ref and m.o(b).kind == "opaque"):
            pass        # unknown external base (typing generics): behaves as object
        else:
            f, r = m.getattr_opt(b, "__mro_entries__")
            if f:
                rb.extend(m.iterate(m.call(r, [tuple(bases)], {})))
    ns = m.new("inst", None, {})
    fd = m.o(body).data
    from .core import Frame
    fr = Frame(fd.code, [UNBOUND] * fd.code.nlocalsplus, fd.globals, fd.closure, ns=ns)
    at0 = m.w(ns).attrs
    r = m.run(fr)
    cell = r[1]
    attrs = dict(m.o(ns).attrs)
    modname = m.o(Ref(fd.globals)).attrs.get("__name__")
    qual = attrs.pop("__qualname__", name)
    attrs.pop("__classcell__", None)
    if is_nt:
        cls = make_namedtuple(m, name, attrs, modname)
    else:
        if meta is None:
            for b in rb:
                if m.o(b).data.meta is not None:
                    meta = m.o(b).data.meta
                    break
        enum_base = m.classes.get("Enum")
        is_enum = enum_base is not None and any(m.issub(b, enum_base) for b in rb)
        if "__slots__" in attrs:
            attrs.pop("__slots__")
        made = m.class_lookup(meta, "__new__") if meta.__class__ is Ref else None
        if made is not None and made.__class__ is Ref:
            fn = m.o(made).data if m.o(made).kind == "staticmethod" else made
            cls = m.call(fn, [meta, name, tuple(rb), m.mkdict(dict(attrs))], dict(kw))
            if not (cls.__class__ is Ref and m.o(cls).kind == "class"):
                return cls
            attrs = m.w(cls).attrs
            m.o(cls).data.meta = meta
        else:
            cls = m.mkclass(name, tuple(rb), None, {}, meta if meta.__class__ is Ref else None)
            m.w(cls).attrs = attrs
        d = m.o(cls).data
        d.module = modname
        d.qualname = qual
        if is_enum:
            make_enum(m, cls, attrs)
        for k, v in list(attrs.items()):
            if v.__class__ is Ref and m.o(v).kind == "inst" and m.o(v).cls is not None and \
                    m.class_has(m.o(v).cls, "__set_name__"):
                m.call_method(v, "__set_name__", [cls, k])
        for special in ("__init_subclass__", "__class_getitem__"):
            v = attrs.get(special)
            if v.__class__ is Ref and m.o(v).kind == "func":
                m.w(cls).attrs[special] = m.new("classmethod", m.classes["classmethod"], None, v)
    d = m.o(cls).data
    d.module = modname
    d.qualname = qual
    if cell.__class__ is Ref and m.o(cell).kind == "cell":
        m.w(cell).data[0] = cls
    if not is_nt:
        for c in m.o(cls).data.mro[1:]:
            ca = m.o(c).attrs
            if "__init_subclass__" in ca:
                isub = ca["__init_subclass__"]
                if isub.__class__ is Ref:
                    m.call(m.bind(isub, None, cls), [], kw)
                break
        init = m.class_lookup(meta, "__init__") if meta.__class__ is Ref else None
        if init is not None and init.__class__ is Ref:
            m.call(init, [cls, name, tuple(rb), m.mkdict(dict(m.o(cls).attrs))], dict(kw))
    return cls


def make_namedtuple(m, name, attrs, modname):
    ann = attrs.pop("__annotations__", None)
    fields = [k for k, _ in m.o(ann).data.values()] if ann is not None else []
    return namedtuple_class(m, name, fields, {f: attrs.pop(f) for f in fields if f in attrs}, attrs, modname)


def namedtuple_class(m, name, fields, defaults, attrs, modname):
    cls = m.mkclass(name, (m.classes["tuple"],), "tuple")
    ca = m.w(cls).attrs
    for i, f in enumerate(fields):
        ca[f] = ("!ntfield", i)
    ca["_fields"] = tuple(fields)
    ca["_field_defaults"] = m.mkdict(defaults)
    ca["__match_args__"] = tuple(fields)
    ca["__new__"] = NFunc("namedtuple.__new__", nt_new)
    ca["_make"] = m.new("classmethod", m.classes["classmethod"], None, NFunc("namedtuple._make", nt_make))
    ca["_replace"] = NFunc("namedtuple._replace", nt_replace)
    ca["_asdict"] = NFunc("namedtuple._asdict", nt_asdict)
    ca.update(attrs)
    m.o(cls).data.module = modname
    return cls


def nt_fields(m, cls):
    return m.class_lookup(cls, "_fields")


def nt_new(m, a, kw):
    cls = a[0]
    fields = nt_fields(m, cls)
    vals = list(a[1:])
    if len(vals) > len(fields):
        m.raise_("TypeError", "__new__() takes too many arguments")
    out = dict(zip(fields, vals))
    for k, v in kw.items():
        if k not in fields or k in out:
            m.raise_("TypeError", f"__new__() got an unexpected keyword argument {k!r}")
        out[k] = v
    dfl = {k: v for k, v in m.o(m.class_lookup(cls, "_field_defaults")).data.values()}
    for f in fields:
        if f not in out:
            if f in dfl:
                out[f] = dfl[f]
            else:
                m.raise_("TypeError", f"__new__() missing argument {f!r}")
    return VSub(cls, tuple(out[f] for f in fields))


def nt_make(m, a, kw):
    return m.call(a[0], m.iterate(a[1]), {})


def nt_replace(m, a, kw):
    v = a[0]
    fields = nt_fields(m, v.cls)
    d = dict(zip(fields, v.val))
    for k in kw:
        if k not in d:
            m.raise_("ValueError", f"Got unexpected field names: {k}")
    d.update(kw)
    return VSub(v.cls, tuple(d[f] for f in fields))


def nt_asdict(m, a, kw):
    return m.mkdict(dict(zip(nt_fields(m, a[0].cls), a[0].val)))


@modfun("namedtuple")
def _(m, a, kw):
    name, fields = a[0], a[1]
    fields = fields.replace(",", " ").split() if fields.__class__ is str else m.iterate(fields)
    d = m.iterate(kw["defaults"]) if kw.get("defaults") is not None else []
    dfl = dict(zip(fields[len(fields) - len(d):], d)) if d else {}
    return namedtuple_class(m, name, fields, dfl, {}, "collections")


def make_enum(m, cls, attrs):
    members = {}
    auto = 0
    base = m.o(cls).data
    for k, v in list(attrs.items()):
        if k.startswith("_"):
            continue
        if v.__class__ is Ref and m.o(v).kind in ("func", "property", "classmethod", "staticmethod", "class"):
            continue
        if v.__class__ is NFunc:
            continue
        if v.__class__ is Ref and m.o(v).kind == "inst" and m.o(v).cls == m.classes.get("enum.auto"):
            auto += 1
            v = k.lower() if base.base == "str" else auto
        elif v.__class__ is int:
            auto = v
        alias = None
        for mm in members.values():
            if m.eq(mm.val if mm.__class__ is VSub else m.o(mm).attrs["_value_"], v):
                alias = mm
        if alias is None and base.base in ("str", "int", "float"):
            if base_val(v).__class__ not in (str, int, float):
                raise Broken("member of an enumeration")
            members[k] = e = VSub(cls, base_val(v))
        elif alias is None:
            e = m.new("inst", cls, {"_name_": k, "_value_": v, "name": k, "value": v})
            members[k] = e
        else:
            e = alias
        m.w(cls).attrs[k] = e
    m.w(cls).attrs["_members_"] = tuple(members.values())
    if base.base in ("str", "int", "float") and members:
        for k, v in m.o(m.classes["enum.mixed"]).attrs.items():
            if v.__class__ is Ref and m.o(v).kind == "property":
                m.w(cls).attrs[k] = v


def make_super(m, cls, self_):
    start = self_ if (self_.__class__ is Ref and m.o(self_).kind == "class") else m.type_of(self_)
    if self_.__class__ is Ref and m.o(self_).kind == "class" and not m.issub(self_, cls):
        start = m.type_of(self_)
    mro = m.o(start).data.mro
    i = mro.index(cls)
    return m.new("super", None, None, (self_, tuple(mro[i + 1:])))


@meth("super", "__new__")
def _(m, a, kw):
    if len(a) == 1:
        f = m.active[-1]
        self_ = f.locals[0]
        if self_.__class__ is Ref and m.o(self_).kind == "cell":
            self_ = m.o(self_).data[0]
        i = f.code.localsplus.index("__class__")
        return make_super(m, m.o(f.locals[i]).data[0], self_)
    return make_super(m, a[1], a[2])


@meth("type", "__new__")
def _(m, a, kw):
    if len(a) == 2:
        return m.type_of(a[1])
    name, bases, ns = a[1], a[2], a[3]
    cls = m.mkclass(name, tuple(bases), None, {})
    m.w(cls).attrs = {k: v for k, v in m.o(ns).data.values()}
    m.o(cls).data.module = "__main__"
    return cls


@meth("type", "mro")
def _(m, a, kw):
    return m.mklist(m.o(a[0]).data.mro)


def abc_check(m, name, v):
    t = m.type_of(v)
    if name == "Hashable":
        try:
            m.hk(v)
            return True
        except PyExc:
            return False
    req = {"Callable": "__call__", "Awaitable": "__await__", "Iterable": "__iter__", "Iterator": "__next__",
           "Mapping": "keys", "MutableMapping": "keys", "Sequence": "__getitem__", "MutableSequence": "append",
           "Sized": "__len__", "Container": "__contains__", "Collection": "__len__", "Set": "isdisjoint",
           "AsyncIterator": "__anext__", "AsyncIterable": "__aiter__", "Coroutine": "send", "Generator": "send",
           "Number": "__add__", "Real": "__add__", "Integral": "__index__"}[name]
    if name in ("Number", "Real"):
        return m.is_num(v)
    if name == "Integral":
        return v.__class__ in (int, bool) or (v.__class__ is Num and m.num_is_int(v))
    if name == "Callable":
        if v.__class__ in (NFunc, Bound):
            return True
        if v.__class__ is Ref and m.o(v).kind in ("func", "class"):
            return True
    if name in ("Awaitable", "Coroutine") and v.__class__ is Ref and m.o(v).kind == "coro":
        return True
    if name == "Awaitable" and v.__class__ is Ref and m.o(v).kind in ("future", "task"):
        return True
    if name == "Generator":
        return v.__class__ is Ref and m.o(v).kind == "gen"
    if name in ("Iterable", "Iterator") and v.__class__ is Ref and m.o(v).kind in ("gen", "iter"):
        return True
    if name == "Sequence" and v.__class__ is Ref and m.o(v).kind in ("dict", "set"):
        return False
    return m.class_has(t, req)


# ---------------------------------------------------------------------- strings
def str_concat(m, parts):
    out = []
    for p in parts:
        p = base_val(p)
        for q in (p.parts if p.__class__ is Fmt else (p,)):
            if q.__class__ is str:
                if not q:
                    continue
                if out and out[-1].__class__ is str:
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return ""
    if len(out) == 1 and out[0].__class__ in (str, Tok, Oth):
        return out[0]
    return Fmt(tuple(out))


def enum_name(m, v):
    for k, x in m.o(v.cls).attrs.items():
        if x == v and not k.startswith("_"):
            return k
    raise Broken("member of an enumeration")


@modfun("enum_name")
def _(m, a, kw):
    return enum_name(m, a[0])


@modfun("plain")
def _(m, a, kw):
    return base_val(a[0])


@modfun("not_modelled")
def _(m, a, kw):
    raise Broken(a[0] + " is not modelled")


def enum_form(m, v):
    """Name of the class and of the member, for one of an enumeration; else None."""
    base = m.classes.get("Enum")
    if base is None or v.__class__ not in (Ref, VSub) or v.__class__ is Ref and m.o(v).kind != "inst":
        return None
    c = m.type_of(v)
    if not m.issub(c, base):
        return None
    name = enum_name(m, v) if v.__class__ is VSub else m.o(v).attrs.get("name")
    return m.o(c).data.name, name, m.issub(c, m.classes["ReprEnum"])


def to_repr(m, v):
    t = v.__class__
    if t in (str, int, float, bool, bytes) or v is None:
        return repr(v)
    if t in (Tok, Oth, Fmt):
        return str_concat(m, ["'", v, "'"])
    if t is Num:
        return Fmt((v,))
    if t is tuple:
        return repr_items(m, "(", v, ",)" if len(v) == 1 else ")")
    if t in (Ref, VSub):
        c = m.type_of(v)
        f = m.class_lookup(c, "__repr__")
        if f is not None and f.__class__ is Ref:
            return m.call(f, [v], {})
        e = enum_form(m, v)
        if e is not None:
            return str_concat(m, [f"<{e[0]}.{e[1]}: ", to_repr(m, base_val(v) if t is VSub else m.o(v).attrs["value"]), ">"])
    if t is VSub:
        names = m.class_lookup(v.cls, "_fields")
        if v.val.__class__ is tuple and names.__class__ is tuple and len(names) == len(v.val):
            return str_concat(m, [m.o(v.cls).data.name, "("] + join_parts(
                [[n, "=", to_repr(m, x)] for n, x in zip(names, v.val)]) + [")"])
        return to_repr(m, v.val)
    if t is Ref:
        h = m.o(v)
        k = h.kind
        if k == "list" and not any(x.__class__ is Star for x in h.data):
            if h.cls == m.classes["deque"]:
                return str_concat(m, ["deque(", repr_items(m, "[", h.data, "]"), ")"])
            return repr_items(m, "[", h.data, "]")
        if k == "dict" and not any(x.__class__ is not tuple for x in h.data.values()):
            return str_concat(m, ["{"] + join_parts(
                [[to_repr(m, a), ": ", to_repr(m, b)] for a, b in h.data.values()]) + ["}"])
        if k == "class":
            return f"<class {h.data.name!r}>"
        if k == "inst" and h.cls is not None and m.o(h.cls).data.base == "exc":
            return repr_items(m, m.o(h.cls).data.name + "(", h.attrs.get("args", ()), ")")
    return "<repr>"


def join_parts(rows):
    out = []
    for i, r in enumerate(rows):
        if i:
            out.append(", ")
        out += r
    return out


def repr_items(m, start, items, end):
    return str_concat(m, [start] + join_parts([[to_repr(m, x)] for x in items]) + [end])


def exc_str(m, v):
    args = m.o(v).attrs.get("args", ())
    if "exceptions" in m.o(v).attrs and "message" in m.o(v).attrs:
        n = len(m.o(v).attrs["exceptions"])
        return str_concat(m, [to_str(m, m.o(v).attrs["message"]), f" ({n} sub-exception{'s' if n != 1 else ''})"])
    if len(args) == 1:
        return to_repr(m, args[0]) if m.exc_is(v, "KeyError") else to_str(m, args[0])
    return to_repr(m, args) if args else ""


def to_str(m, v):
    if v.__class__ is VSub:
        e = enum_form(m, v)
        if e is not None and not e[2]:
            f = m.class_lookup(v.cls, "__str__")
            if f is None or f.__class__ is not Ref:
                return f"{e[0]}.{e[1]}"
    v0 = v
    v = base_val(v)
    t = v.__class__
    if t is str or t is Tok or t is Oth or t is Fmt:
        return v
    if t in (int, float, bool) or v is None:
        return str(v)
    if t is Num:
        return Fmt((v,))
    if v0.__class__ in (Ref, VSub):
        c = m.type_of(v0)
        for nm in ("__str__", "__repr__"):
            f = m.class_lookup(c, nm)
            if f is not None and f.__class__ is Ref:
                return m.call(f, [v0], {})
        e = enum_form(m, v0)
        if e is not None:
            return f"{e[0]}.{e[1]}"
        if v0.__class__ is Ref:
            h = m.o(v0)
            if h.kind == "inst" and h.cls is not None and m.o(h.cls).data.base == "exc":
                return exc_str(m, v0)
        return to_repr(m, v0)
    if t is tuple:
        return to_repr(m, v0)
    return "<object>"


def format_value(m, v, conv, spec):
    if conv in (2, 3):
        v = to_repr(m, v)
    if spec and base_val(v).__class__ in (int, float, str):
        try:
            return format(base_val(v), spec)
        except Exception:
            return "<formatted>"
    return to_str(m, v)


def str_contains(m, c, x):
    if c.__class__ is Fmt and x.__class__ is str:
        if any(p.__class__ is str and x in p for p in c.parts):
            return True
        if all(p.__class__ in (str, Tok, Oth) for p in c.parts):
            return False
    if c.__class__ in (Tok, Oth) and x.__class__ is str:
        if x == "":
            return True
        return False
    if c.__class__ is str:
        return False
    return m.sym_fact(("in", x, c), f"{x!r} in {c!r}")


def str_split(m, s, sep, maxsplit=-1, right=False):
    """Split an abstract string at a literal separator; unknown parts contain no separator."""
    s = base_val(s)
    parts = s.parts if s.__class__ is Fmt else (s,)
    segs = [[]]
    for p in parts:
        if p.__class__ is str:
            bits = p.split(sep)
            for i, b in enumerate(bits):
                if i:
                    segs.append([])
                if b:
                    segs[-1].append(b)
        else:
            segs[-1].append(p)
    if maxsplit >= 0 and len(segs) - 1 > maxsplit:
        def join(ss):
            out = []
            for i, x in enumerate(ss):
                if i:
                    out.append(sep)
                out.extend(x)
            return out
        if right:
            k = len(segs) - maxsplit
            segs = [join(segs[:k])] + segs[k:]
        else:
            segs = segs[:maxsplit] + [join(segs[maxsplit:])]
    return [str_concat(m, x) for x in segs]


def _strm(name):
    def deco(fn):
        _REG[("str", name)] = fn
        return fn
    return deco


@_strm("split")
def _(m, a, kw):
    s = base_val(a[0])
    sep = a[1] if len(a) > 1 else kw.get("sep")
    mx = a[2] if len(a) > 2 else kw.get("maxsplit", -1)
    if s.__class__ is str and (sep is None or sep.__class__ is str):
        return m.mklist(s.split(sep, mx))
    if sep.__class__ is str:
        return m.mklist(str_split(m, s, sep, mx))
    return m.mklist([m.unknown("split")])


@_strm("rsplit")
def _(m, a, kw):
    s = base_val(a[0])
    sep = a[1] if len(a) > 1 else kw.get("sep")
    mx = a[2] if len(a) > 2 else kw.get("maxsplit", -1)
    if s.__class__ is str:
        return m.mklist(s.rsplit(sep, mx))
    return m.mklist(str_split(m, s, sep, mx, right=True))


@_strm("partition")
def _(m, a, kw):
    r = str_split(m, a[0], a[1], 1)
    return (r[0], a[1], r[1]) if len(r) == 2 else (r[0], "", "")


@_strm("rpartition")
def _(m, a, kw):
    r = str_split(m, a[0], a[1], 1, right=True)
    return (r[0], a[1], r[1]) if len(r) == 2 else ("", "", r[0])


@_strm("count")
def _(m, a, kw):
    return len(str_split(m, a[0], a[1])) - 1


@_strm("join")
def _(m, a, kw):
    out = []
    for i, x in enumerate(m.iterate(a[1])):
        if i:
            out.append(a[0])
        if base_val(x).__class__ not in (str, Tok, Oth, Fmt):
            if x.__class__ is Sym:
                return m.unknown("join")
            m.raise_("TypeError", "sequence item: expected str instance")
        out.append(x)
    return str_concat(m, out)


@_strm("format")
def _(m, a, kw):
    s = base_val(a[0])
    if s.__class__ is not str:
        return m.unknown("format")
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is not None:
            if field == "":
                v = a[1 + auto]
                auto += 1
            elif field.isdigit():
                v = a[1 + int(field)]
            elif field in kw:
                v = kw[field]
            else:
                return m.unknown("format")
            out.append(to_str(m, v))
    return str_concat(m, out)


def _simple_str(name):
    def fn(m, a, kw):
        s = base_val(a[0])
        args = [base_val(x) for x in a[1:]]
        if s.__class__ is str and all(x.__class__ in CONST_TYPES or (x.__class__ is tuple) for x in args):
            try:
                r = getattr(s, name)(*args)
            except Exception as e:
                m.raise_(type(e).__name__, str(e))
            if r.__class__ is list:
                return m.mklist(r)
            return r
        if name in ("strip", "lstrip", "rstrip", "__str__") and s.__class__ in (Tok, Oth, Fmt):
            return s
        if name == "startswith" and s.__class__ is Fmt and s.parts[0].__class__ is str and args[0].__class__ is str:
            p = s.parts[0]
            if p.startswith(args[0]):
                return True
            if not args[0].startswith(p):
                return False
        if name in ("startswith", "endswith", "isdigit"):
            return m.sym_fact(("str", name, s, tuple(args)), f"{name} of {s!r}")
        return m.unknown(f"str.{name}")
    _REG[("str", name)] = fn


for _n in ("strip", "lstrip", "rstrip", "lower", "upper", "startswith", "endswith", "replace", "isdigit", "title",
           "find", "index", "encode", "splitlines", "zfill", "isidentifier", "casefold", "capitalize", "ljust", "rjust",
           "removeprefix", "removesuffix", "isalnum", "isalpha", "rfind"):
    _simple_str(_n)


@meth("str", "__new__")
def _(m, a, kw):
    v = to_str(m, a[1]) if len(a) > 1 else ""
    return wrap(m, a[0], "str", v)


@meth("str", "__str__")
def _(m, a, kw):
    return base_val(a[0])


@meth("str", "__eq__")
def _(m, a, kw):
    return m.eq(base_val(a[0]), base_val(a[1]))


@meth("str", "__hash__", "__iter__", "__len__", "__contains__", "__getitem__", "__format__", "__repr__")
def _(m, a, kw):
    return m.unknown("str.special")


# ---------------------------------------------------------------------- numbers
def num_op(m, op, a, b):
    """Arithmetic on abstract numbers."""
    if a.__class__ is not Num and b.__class__ is not Num:
        try:
            if op == "**":
                if isinstance(a, int) and isinstance(b, int) and abs(b) > 100000:
                    return m.unknown("huge power")
                return a ** b
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                return a / b
            if op == "//":
                return a // b
            if op == "%":
                return a % b
            if op == "<<":
                return a << b
            if op == ">>":
                return a >> b
            if op == "&":
                return a & b
            if op == "|":
                return a | b
            if op == "^":
                return a ^ b
        except (ZeroDivisionError, OverflowError, ValueError, TypeError) as e:
            m.raise_(type(e).__name__, str(e))
        raise Broken(f"number op {op}")
    inf = float("inf")
    for x in (a, b):
        if x.__class__ is float and (x in (inf, -inf) or x != x):
            return inf_op(m, op, a, b)
    p, q = N.of(a), N.of(b)
    if op in ("+", "-", "*", "/") and mixed_float(m, a, b):
        for x in (a, b):
            overflow_check(m, x)
    if op == "+":
        return m.simp(N.add(p, q))
    if op == "-":
        return m.simp(N.sub(p, q))
    if op == "*":
        return m.simp(N.mul(p, q))
    if op in ("/", "//", "%"):
        if m.num_sign_is(q, {0}):
            m.raise_("ZeroDivisionError", "division by zero")
        if op == "/":
            for x in (a, b):
                overflow_check(m, x)
            return m.simp(N.div(p, q))
        fl = floor_num(m, N.div(p, q))
        if op == "//":
            return fl
        return m.simp(N.sub(p, N.mul(N.of(fl), q)))
    if op == "**":
        if b.__class__ is int:
            if b == 0:
                return 1 if m.num_is_int(p) else 1.0
            r = N.of(1)
            for _ in range(abs(b)):
                r = N.mul(r, p)
            return m.simp(r if b > 0 else N.inv(r))
        if a.__class__ in (int, float) and a > 0 and b.__class__ is Num:
            if a.__class__ is float:
                return pow_float(m, a, b)
            return m.simp(N.atom(("pow", a, b)))
        return m.unknown(m.fresh("pow"))
    if op == "<<" and b.__class__ is Num:
        return m.simp(N.mul(p, N.atom(("pow", 2, b))))
    if op == "<<":
        return m.simp(N.mul(p, N.of(2 ** b)))
    return m.unknown(m.fresh("num" + op))


def inf_op(m, op, a, b):
    inf = float("inf")
    af = a if a.__class__ is not Num else None
    if op in ("+", "-"):
        if af is not None:
            return af
        return b if op == "+" else -b
    if op == "*":
        other, i = (a, b) if a.__class__ is Num else (b, a)
        if m.num_sign_is(other, {1}):
            return i
        if m.num_sign_is(other, {-1}):
            return -i
        return float("nan")
    if op == "/" and a.__class__ is Num:
        return 0.0
    return m.unknown(m.fresh("infop"))


def has_pow(p):
    return p.__class__ is Num and any(a.__class__ is tuple and a[0] == "pow" and isinstance(a[1], int)
                                      for mo, _ in p.t for a, _e in mo)


def mixed_float(m, a, b):
    def isf(x):
        return x.__class__ is float or (x.__class__ is Num and not m.num_is_int(x))
    return (isf(a) and has_pow(b) and not isf(b)) or (isf(b) and has_pow(a) and not isf(a))


def overflow_check(m, x):
    """Converting an unbounded integer power to float overflows once the exponent passes 1023."""
    if x.__class__ is not Num:
        return
    for mo, _ in x.t:
        for a, _e in mo:
            if a.__class__ is tuple and a[0] == "pow" and isinstance(a[1], int):
                if exp_too_big(m, a[2], a[1]):
                    m.raise_("OverflowError", "int too large to convert to float")


def exp_too_big(m, e, base):
    import math
    lim = int(1023 / math.log2(base))
    return not m.num_sign_is(N.sub(N.of(e), N.of(lim)), {-1, 0})


def pow_float(m, a, b):
    if a > 1 and exp_too_big(m, b, a):
        m.raise_("OverflowError", "(34, 'Numerical result out of range')")
    return m.simp(N.atom(("pow", Fraction(repr(a)) if a != int(a) else int(a), b)))


def floor_num(m, p):
    p = N.of(p)
    c = p.const()
    if c is not None:
        return int(c // 1)
    if m.num_is_int(p):
        return p
    return N.atom(("int", p))


def neg(m, v):
    v0 = base_val(v)
    if v0.__class__ in (int, float, bool, complex):
        return -v0
    if v0.__class__ is Num:
        return N.neg(v0)
    if v.__class__ is Ref:
        f = m.class_lookup(m.type_of(v), "__neg__")
        if f is not None:
            return m.call(f, [v], {})
    return m.unknown(m.fresh("neg"))


DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow",
          "&": "and", "|": "or", "^": "xor", "<<": "lshift", ">>": "rshift", "@": "matmul"}


def binop(m, op, a, b):
    for x, y, nm in ((a, b, f"__{DUNDER[op]}__"), (b, a, f"__r{DUNDER[op]}__")):
        if x.__class__ in (Ref, VSub):
            f = m.class_lookup(m.type_of(x), nm)
            if f is not None and f.__class__ is Ref:
                r = m.call(f, [x, y], {})
                if r is not NOTIMPL:
                    return r
    a0, b0 = base_val(a), base_val(b)
    if m.is_num(a0) and m.is_num(b0):
        return num_op(m, op, a0, b0)
    ta, tb = a0.__class__, b0.__class__
    if ta is tuple and a0 and a0[0] == "!h" or tb is tuple and b0 and b0[0] == "!h" and ta is int:
        return ("!h", (op, a0, b0))
    if ta is Sym or tb is Sym:
        if op == "%" and ta is str:
            return "<formatted>"
        return m.unknown(m.fresh("binop"))
    strs = (str, Tok, Oth, Fmt)
    if op == "+" and ta in strs and tb in strs:
        return str_concat(m, [a0, b0])
    if op == "%" and ta is str:
        return str_mod(m, a0, b0)
    if op == "*" and ta is str and tb is int:
        return a0 * b0
    if ta is tuple and tb is tuple and op == "+":
        return a0 + b0
    if ta is tuple and tb is int and op == "*":
        return a0 * b0
    if ta is bytes and tb is bytes and op == "+":
        return a0 + b0
    if ta is Ref and m.o(a0).kind == "list":
        if op == "+" and tb is Ref and m.o(b0).kind == "list":
            return m.new("list", m.o(a0).cls if m.o(a0).cls == m.classes["deque"] else m.classes["list"], None,
                         list(m.o(a0).data) + list(m.o(b0).data))
        if op == "*" and tb is int:
            return m.mklist(list(m.o(a0).data) * b0)
    if is_setlike(m, a0) and is_setlike(m, b0) and op in ("|", "&", "-", "^"):
        return set_op(m, op, a0, b0)
    if ta is Ref and tb is Ref and m.o(a0).kind == "dict" and m.o(b0).kind == "dict" and op == "|":
        r = m.new("dict", m.classes["dict"], None, dict(m.o(a0).data))
        dict_update(m, r, b0)
        return r
    if op == "|" and (ta is Ref and m.o(a0).kind == "class" or tb is Ref and m.o(b0).kind == "class"):
        return (a0 if a0.__class__ is tuple else (a0,)) + (b0 if b0.__class__ is tuple else (b0,))
    dunder = DUNDER.get(op)
    if dunder:
        m.check_modelled(m.type_of(a), "__" + dunder + "__", "__i" + dunder + "__")
        m.check_modelled(m.type_of(b), "__r" + dunder + "__")
    m.raise_("TypeError", f"unsupported operand type(s) for {op}: {m.o(m.type_of(a)).data.name!r} and "
             f"{m.o(m.type_of(b)).data.name!r}")


def str_mod(m, s, args):
    args = list(args) if args.__class__ is tuple else [args]
    bits = []
    i = 0
    k = 0
    while i < len(s):
        j = s.find("%", i)
        if j < 0:
            bits.append(s[i:])
            break
        bits.append(s[i:j])
        c = s[j + 1: j + 2]
        if c == "%":
            bits.append("%")
        elif c in "sdr" and k < len(args):
            bits.append(to_repr(m, args[k]) if c == "r" else to_str(m, args[k]))
            k += 1
        else:
            return "<formatted>"
        i = j + 2
    return str_concat(m, bits)


def inplace(m, op, a, b):
    if a.__class__ is Ref:
        f = m.class_lookup(m.type_of(a), f"__i{DUNDER[op]}__")
        if f is not None and f.__class__ is Ref:
            return m.call(f, [a, b], {})
        h = m.o(a)
        if h.kind == "list" and op == "+":
            list_extend(m, a, b)
            return a
        if h.kind == "set" and h.cls != m.classes["frozenset"]:
            if op == "|":
                for x in m.iterate(b):
                    set_add(m, a, x)
                return a
            r = set_op(m, op, a, b)
            m.w(a).data = dict(m.o(r).data)
            return a
        if h.kind == "dict" and op == "|":
            dict_update(m, a, b)
            return a
    return binop(m, op, a, b)


def new_num_cls(name, conv):
    def fn(m, a, kw):
        if len(a) == 1:
            return wrap(m, a[0], name, conv(0))
        v = base_val(a[1])
        if v.__class__ is Num:
            if name == "int":
                fl = floor_num(m, v)
                return fl
            overflow_check(m, v)
            return v
        if v.__class__ in (int, float, bool):
            try:
                return wrap(m, a[0], name, conv(v))
            except (OverflowError, ValueError) as e:
                m.raise_(type(e).__name__, str(e))
        if v.__class__ is str:
            try:
                return wrap(m, a[0], name, conv(v, *[base_val(x) for x in a[2:]]))
            except ValueError as e:
                m.raise_("ValueError", str(e))
        if v.__class__ in (Sym, Tok, Oth, Fmt):
            return m.unknown(m.fresh(name))
        if v.__class__ is Ref:
            f = m.class_lookup(m.type_of(v), f"__{name}__")
            if f is not None:
                return m.call(f, [v], {})
        m.raise_("TypeError", f"{name}() argument must be a string or a number")
    return fn


_REG[("int", "__new__")] = new_num_cls("int", int)
_REG[("float", "__new__")] = new_num_cls("float", float)


@meth("int", "bit_length")
def _(m, a, kw):
    v = base_val(a[0])
    return v.bit_length() if v.__class__ is int else m.unknown(m.fresh("bit_length"))


@meth("float", "is_integer")
def _(m, a, kw):
    v = base_val(a[0])
    return v.is_integer() if v.__class__ is float else m.fork("is_integer")


@meth("bool", "__new__")
def _(m, a, kw):
    return m.truth(a[1]) if len(a) > 1 else False


@meth("bytes", "__new__")
def _(m, a, kw):
    return m.unknown("bytes")


@meth("bytes", "decode")
def _(m, a, kw):
    v = base_val(a[0])
    return v.decode() if v.__class__ is bytes else m.unknown("decode")


# ---------------------------------------------------------------------- iteration
def new_iter(m, data):
    return m.new("iter", m.classes["iterator"], None, data)


def get_iter(m, v):
    t = v.__class__
    if t is tuple:
        return new_iter(m, ["seq", v, 0, 0])
    if t is str:
        return new_iter(m, ["seq", tuple(v), 0, 0])
    if t is VSub:
        f = m.class_lookup(v.cls, "__iter__")
        if f is not None and f.__class__ is Ref:
            return m.call(f, [v], {})
        return get_iter(m, v.val)
    if t is Sym:
        return new_iter(m, ["unknown", v, 0, 0])
    if t is Ref:
        h = m.o(v)
        k = h.kind
        if k in ("iter", "gen"):
            return v
        if h.cls is not None or k == "class":
            c = m.type_of(v)
            f = m.class_lookup(c, "__iter__")
            if f is not None and f.__class__ is Ref:
                return m.call(f, [v], {})
        if k == "list":
            return new_iter(m, ["seq", v, 0, 0])
        if k == "dict":
            return new_iter(m, ["dict", v, 0, len(h.data), "keys", 0])
        if k == "set":
            return new_iter(m, ["dict", v, 0, len(h.data), "set", 0])
        if k == "view":
            return new_iter(m, ["dict", h.data[1], 0, len(m.o(h.data[1]).data), h.data[0], 0])
        if k == "rangeobj":
            return new_iter(m, ["range", h.data[0], h.data[1], h.data[2]])
        if h.cls is not None:
            if m.class_lookup(h.cls, "__getitem__") is not None and k == "inst":
                return new_iter(m, ["getitem", v, 0])
    m.check_modelled(m.type_of(v), "__iter__")
    m.raise_("TypeError", f"{m.o(m.type_of(v)).data.name!r} object is not iterable")


STAR_UNROLL = 2


def iter_next(m, it):
    if it.__class__ is Sym:
        return None if m.fork("unknown iterator exhausted") else (m.unknown(m.fresh("item")),)
    h = m.o(it)
    k = h.kind
    if k == "gen":
        try:
            r = m.resume(it)
        except PyExc:
            raise
        return (r[1],) if r[0] == "yield" else None
    if k != "iter":
        f = m.class_lookup(m.type_of(it), "__next__")
        if f is None:
            m.raise_("TypeError", "not an iterator")
        try:
            return (m.call(m.bind(f, it, m.type_of(it)), [], {}),)
        except PyExc as e:
            if m.exc_is(e.val, "StopIteration"):
                return None
            raise
    d = m.w(it).data
    ty = d[0]
    if ty == "seq":
        c = d[1]
        if c is None:
            return None
        while True:
            data = c if c.__class__ is tuple else m.o(c).data
            i = d[2]
            if i >= len(data):
                d[1] = None
                return None
            x = data[i]
            if x.__class__ is Star:
                if d[3] >= STAR_UNROLL or m.fork("end of summarised segment"):
                    d[2] = i + 1
                    d[3] = 0
                    continue
                vals = sorted(x.vals, key=repr)
                d[3] += 1
                return (vals[m.choose(len(vals))],)
            d[2] = i + 1
            return (x,)
    if ty == "dict":
        c = d[1]
        if c is None:
            return None
        while True:
            data = m.o(c).data
            if len(data) != d[3]:
                m.raise_("RuntimeError", "dictionary changed size during iteration")
            i = d[2]
            if i >= len(data):
                d[1] = None
                return None
            key = list(data)[i]
            mode = d[4]
            e = data[key]
            if key.__class__ is Oth:
                if d[5] >= STAR_UNROLL or m.fork("end of other members"):
                    d[2] = i + 1
                    d[5] = 0
                    continue
                d[5] += 1
                if mode == "set":
                    return (e,)
                v = star_val(m, e[1])
                return (e[0],) if mode == "keys" else (v,) if mode == "values" else ((e[0], v),)
            d[2] = i + 1
            if mode == "set":
                return (e,)
            return (e[0],) if mode == "keys" else (e[1],) if mode == "values" else ((e[0], e[1]),)
    if ty == "range":
        cur, stop, step = d[1], d[2], d[3]
        if cur.__class__ is int and stop.__class__ is int and step.__class__ is int:
            if (step > 0 and cur >= stop) or (step < 0 and cur <= stop):
                return None
        else:
            if not m.order(cur, stop, "<"):
                return None
        d[1] = num_op(m, "+", cur, step)
        return (cur,)
    if ty == "zip":
        out = []
        for x in d[1]:
            r = iter_next(m, x)
            if r is None:
                return None
            out.append(r[0])
        return (tuple(out),)
    if ty == "map":
        out = []
        for x in d[2]:
            r = iter_next(m, x)
            if r is None:
                return None
            out.append(r[0])
        return (m.call(d[1], out, {}),)
    if ty == "filter":
        while True:
            r = iter_next(m, d[2])
            if r is None:
                return None
            if m.truth(r[0] if d[1] is None else m.call(d[1], [r[0]], {})):
                return r
    if ty == "enumerate":
        r = iter_next(m, d[1])
        if r is None:
            return None
        i = d[2]
        m.w(it).data[2] = num_op(m, "+", i, 1)
        return ((i, r[0]),)
    if ty == "callable":
        v = m.call(d[1], [], {})
        if m.eq(v, d[2]):
            return None
        return (v,)
    if ty == "getitem":
        i = d[2]
        d[2] += 1
        try:
            return (getitem(m, d[1], i),)
        except PyExc as e:
            if m.exc_is(e.val, "IndexError"):
                return None
            raise
    if ty == "unknown":
        if d[2] >= STAR_UNROLL or m.fork("unknown iterable exhausted"):
            return None
        d[2] += 1
        return (m.unknown_child(d[1], f"[{d[2]}]"),)
    raise Broken(f"iterator {ty}")


def star_val(m, v):
    if v.__class__ is Star:
        vals = sorted(v.vals, key=repr)
        return vals[m.choose(len(vals))]
    return v


# ---------------------------------------------------------------------- lists
def list_extend(m, ref, v):
    if v.__class__ is Ref and m.o(v).kind == "list":
        m.w(ref).data.extend(list(m.o(v).data))
        _trim(m, ref)
        return
    items = m.iterate(v)
    m.w(ref).data.extend(items)
    _trim(m, ref)


def _trim(m, ref, left=False):
    h = m.o(ref)
    if h.attrs and "maxlen" in h.attrs and h.attrs["maxlen"] is not None:
        n = h.attrs["maxlen"]
        d = m.w(ref).data
        while len(d) > n:
            d.pop(-1 if left else 0)


def norm_index(m, ref, i, what="list index out of range"):
    """Resolve index i (host int) to a position holding a concrete element, materialising summaries."""
    while True:
        d = m.o(ref).data
        n = len(d)
        star = [j for j, x in enumerate(d) if x.__class__ is Star]
        if i.__class__ is bool:
            i = int(i)
        if i.__class__ is not int:
            if i.__class__ is Num or i.__class__ is Sym:
                # unknown index: any element
                if not n:
                    m.raise_("IndexError", what)
                return m.choose(n)
            m.raise_("TypeError", "list indices must be integers or slices")
        if not star:
            j = i + n if i < 0 else i
            if j < 0 or j >= n:
                m.raise_("IndexError", what)
            return j
        if i >= 0:
            if i < star[0]:
                return i
            if i == star[0]:
                if m.star_take(ref, i, False):
                    return i
                continue
        else:
            j = n + i
            if j > star[-1]:
                return j
            if j == star[-1]:
                h = m.o(ref)
                s = h.data[j]
                if m.fork("segment empty"):
                    m.w(ref).data.pop(j)
                    continue
                vals = sorted(s.vals, key=repr)
                m.w(ref).data.insert(j + 1, vals[m.choose(len(vals))])
                return j + 1
        raise Broken("index into a summarised list")


@meth("list", "append")
def _(m, a, kw):
    m.w(a[0]).data.append(a[1])


@meth("deque", "append")
def _(m, a, kw):
    m.w(a[0]).data.append(a[1])
    _trim(m, a[0])


@meth("deque", "appendleft")
def _(m, a, kw):
    m.w(a[0]).data.insert(0, a[1])
    _trim(m, a[0], True)


@meth("list", "extend")
def _(m, a, kw):
    list_extend(m, a[0], a[1])


@meth("deque", "extend")
def _(m, a, kw):
    list_extend(m, a[0], a[1])
    _trim(m, a[0])


@meth("deque", "extendleft")
def _(m, a, kw):
    for x in m.iterate(a[1]):
        m.w(a[0]).data.insert(0, x)
    _trim(m, a[0], True)


@meth("list", "insert")
def _(m, a, kw):
    i = base_val(a[1])
    if i.__class__ is int and (i == 0 or not any(x.__class__ is Star for x in m.o(a[0]).data)):
        m.w(a[0]).data.insert(i, a[2])
    else:
        raise Broken("insert into a summarised list")


@meth("deque", "insert")
def _(m, a, kw):
    h = m.o(a[0])
    mx = (h.attrs or {}).get("maxlen")
    if mx is not None and len(h.data) >= mx:
        m.raise_("IndexError", "deque already at its maximum size")
    _REG[("list", "insert")](m, a, kw)


@meth("list", "pop")
def _(m, a, kw):
    i = base_val(a[1]) if len(a) > 1 else -1
    j = norm_index(m, a[0], i, "pop from empty list" if not m.o(a[0]).data else "pop index out of range")
    return m.w(a[0]).data.pop(j)


@meth("deque", "pop")
def _(m, a, kw):
    j = norm_index(m, a[0], -1, "pop from an empty deque")
    return m.w(a[0]).data.pop(j)


@meth("deque", "popleft")
def _(m, a, kw):
    j = norm_index(m, a[0], 0, "pop from an empty deque")
    return m.w(a[0]).data.pop(j)


def list_find(m, ref, x):
    """Position of the first element equal to x or None (summaries may hold equal values)."""
    i = 0
    while i < len(m.o(ref).data):
        y = m.o(ref).data[i]
        if y.__class__ is Star:
            if any(m.may_eq(x, z) for z in y.vals) and m.fork("found in summarised segment"):
                return i
        elif m.eq(x, y):
            return i
        i += 1
    return None


@meth("list", "remove")
def _(m, a, kw):
    i = list_find(m, a[0], a[1])
    if i is None:
        if a[1].__class__ is Oth:
            m.oth_pruned += 1
            raise Prune()
        m.raise_("ValueError", "list.remove(x): x not in list")
    if m.o(a[0]).data[i].__class__ is Star:
        return
    m.w(a[0]).data.pop(i)


_REG[("deque", "remove")] = _REG[("list", "remove")]


@meth("list", "index", )
def _(m, a, kw):
    i = list_find(m, a[0], a[1])
    if i is None:
        m.raise_("ValueError", "is not in list")
    return i


@meth("deque", "index")
def _(m, a, kw):
    return _REG[("list", "index")](m, a, kw)


@meth("list", "count")
def _(m, a, kw):
    return sum(1 for y in m.iterate(a[0]) if m.eq(a[1], y))


@meth("deque", "count")
def _(m, a, kw):
    return _REG[("list", "count")](m, a, kw)


@meth("list", "clear")
def _(m, a, kw):
    m.w(a[0]).data = []


_REG[("deque", "clear")] = _REG[("list", "clear")]


@meth("list", "copy", )
def _(m, a, kw):
    return m.new("list", m.classes["list"], None, list(m.o(a[0]).data))


@meth("deque", "copy", "__copy__")
def _(m, a, kw):
    h = m.o(a[0])
    return m.new("list", h.cls, dict(h.attrs) if h.attrs else None, list(h.data))


@meth("list", "reverse")
def _(m, a, kw):
    m.w(a[0]).data.reverse()


_REG[("deque", "reverse")] = _REG[("list", "reverse")]


@meth("deque", "rotate")
def _(m, a, kw):
    n = a[1] if len(a) > 1 else 1
    d = m.w(a[0]).data
    if d:
        n %= len(d)
        m.w(a[0]).data = d[-n:] + d[:-n] if n else d


def do_sort(m, items, key, reverse):
    ks = [(m.call(key, [x], {}) if key is not None else x) for x in items]

    def cmp(i, j):
        if m.order(ks[i], ks[j], "<"):
            return -1
        if m.order(ks[j], ks[i], "<"):
            return 1
        return 0
    idx = sorted(range(len(items)), key=functools.cmp_to_key(cmp), reverse=reverse)
    return [items[i] for i in idx]


@meth("list", "sort")
def _(m, a, kw):
    items = do_sort(m, m.iterate(a[0]), kw.get("key"), m.truth(kw.get("reverse", False)))
    m.w(a[0]).data = items


@meth("list", "__init__")
def _(m, a, kw):
    m.w(a[0]).data = []
    if len(a) > 1:
        list_extend(m, a[0], a[1])


@meth("deque", "__init__")
def _(m, a, kw):
    h = m.w(a[0])
    h.data = []
    mx = a[2] if len(a) > 2 else kw.get("maxlen")
    if mx is not None:
        h.attrs = {"maxlen": mx}
    if len(a) > 1:
        list_extend(m, a[0], a[1])
        _trim(m, a[0])


def length(m, v):
    t = v.__class__
    v0 = base_val(v)
    if t in (Ref, VSub):
        c = m.type_of(v)
        f = m.class_lookup(c, "__len__")
        if f is not None and f.__class__ is Ref:
            return m.call(f, [v], {})
    if v0.__class__ in (tuple, str, bytes):
        return len(v0)
    if t is Ref:
        h = m.o(v)
        if h.kind == "list":
            n = sum(1 for x in h.data if x.__class__ is not Star)
            if n == len(h.data):
                return n
            return star_len(m, v, n)
        if h.kind in ("dict", "set"):
            n = sum(1 for x in h.data if x.__class__ is not Oth)
            if n == len(h.data):
                return n
            return star_len(m, v, n)
        if h.kind == "view":
            return length(m, h.data[1])
        if h.kind == "rangeobj" and all(x.__class__ is int for x in h.data):
            return len(range(*h.data))
    if t is Sym:
        n = m.fresh("len")
        m.st.bounds[n] = (0, False, N.INF, True)
        m.st.facts[("isint", n)] = True
        return N.atom(n)
    if v0.__class__ in (Tok, Oth, Fmt):
        n = m.fresh("len")
        m.st.bounds[n] = (1, False, N.INF, True)
        m.st.facts[("isint", n)] = True
        return N.atom(n)
    m.check_modelled(m.type_of(v), "__len__")
    m.raise_("TypeError", f"object of type {m.o(m.type_of(v)).data.name!r} has no len()")


def star_len(m, ref, n):
    """Length of a summarised container: decide first whether the summary is empty."""
    h = m.o(ref)
    if m.fork("summarised members absent"):
        if h.kind == "list":
            m.w(ref).data = [x for x in h.data if x.__class__ is not Star]
        else:
            m.w(ref).data = {k: v for k, v in h.data.items() if k.__class__ is not Oth}
        return n
    a = m.fresh("len")
    m.st.bounds[a] = (n + 1, False, N.INF, True)
    m.st.facts[("isint", a)] = True
    return N.atom(a)


def slice_idx(m, v):
    s = m.o(v).data
    out = []
    for x in s:
        x = base_val(x)
        if x is None or x.__class__ is int:
            out.append(x)
        elif x.__class__ is Num:
            out.append(("num", x))
        else:
            m.raise_("TypeError", "slice indices must be integers")
    return out


def getitem(m, c, k):
    t = c.__class__
    if t is Sym:
        return m.unknown_child(c, "[]")
    if t is Ref:
        h = m.o(c)
        cls = m.type_of(c) if (h.cls is not None or h.kind == "class") else None
        if h.kind == "class":
            if h.data.meta is not None:
                f = m.class_lookup(h.data.meta, "__getitem__")
                if f is not None:
                    return m.call(f, [c, k], {})
            found, f, _ = m.class_lookup_d(c, "__class_getitem__")
            if found:
                return m.call(m.bind(f, None, c), [k], {})
            return c
        if cls is not None:
            f = m.class_lookup(cls, "__getitem__")
            if f is not None and f.__class__ is Ref:
                return m.call(f, [c, k], {})
        if h.kind == "dict":
            return dict_get(m, c, k)
        if h.kind == "list":
            if k.__class__ is Ref and m.o(k).kind == "slice":
                s = slice_idx(m, k)
                d = m.o(c).data
                if any(x.__class__ is Star for x in d):
                    if s == [None, None, None]:
                        return m.mklist(d)
                    if s[0] in (None, 0) and s[1] == -1 and s[2] is None:
                        j = norm_index(m, c, -1)
                        return m.mklist(m.o(c).data[:j])
                    if s[0] == 1 and s[1] is None and s[2] is None:
                        if not m.nonempty(c):
                            return m.mklist()
                        j = norm_index(m, c, 0)
                        return m.mklist(m.o(c).data[1:])
                    raise Broken("slice of a summarised list")
                s = [resolve_bound(m, x, len(d)) for x in s]
                return m.mklist(d[slice(*s)])
            return m.o(c).data[norm_index(m, c, base_val(k))]
        if h.kind == "rangeobj":
            if not all(x.__class__ is int for x in h.data):
                raise Broken("element of a range with unknown bounds")
            if k.__class__ is Ref and m.o(k).kind == "slice":
                r = range(*h.data)[slice(*slice_idx(m, k))]
                return m.new("rangeobj", m.classes["range"], None, (r.start, r.stop, r.step))
            try:
                return range(*h.data)[base_val(k)]
            except IndexError:
                m.raise_("IndexError", "range object index out of range")
        if h.kind == "view":
            m.raise_("TypeError", "view is not subscriptable")
        if h.kind in ("opaque", "func"):
            return m.unknown("subscript")
    c0 = base_val(c)
    if t is VSub:
        f = m.class_lookup(c.cls, "__getitem__")
        if f is not None and f.__class__ is Ref:
            return m.call(f, [c, k], {})
    if c0.__class__ in (tuple, str, bytes):
        if k.__class__ is Ref and m.o(k).kind == "slice":
            s = [resolve_bound(m, x, len(c0)) for x in slice_idx(m, k)]
            return c0[slice(*s)]
        k0 = base_val(k)
        if k0.__class__ in (int, bool):
            try:
                return c0[k0]
            except IndexError:
                m.raise_("IndexError", "index out of range")
        if k0.__class__ is Num and c0:
            return c0[m.choose(len(c0))]
        m.raise_("TypeError", "indices must be integers or slices")
    if c0.__class__ in (Fmt, Tok, Oth):
        return m.unknown(m.fresh("substr"))
    m.check_modelled(m.type_of(c), "__getitem__")
    m.raise_("TypeError", f"{m.o(m.type_of(c)).data.name!r} object is not subscriptable")


def resolve_bound(m, x, n):
    if x.__class__ is tuple:
        # unknown slice bound: any position
        for i in range(n):
            if m.num_sign_is(N.sub(x[1], N.of(i)), {0}):
                return i
        return n
    return x


def setitem(m, c, k, v):
    if c.__class__ is Sym:
        return
    if c.__class__ is Ref:
        h = m.o(c)
        if h.cls is not None:
            f = m.class_lookup(h.cls, "__setitem__")
            if f is not None and f.__class__ is Ref:
                m.call(f, [c, k, v], {})
                return
        if h.kind == "dict":
            dict_set(m, c, k, v)
            return
        if h.kind == "list":
            if k.__class__ is Ref and m.o(k).kind == "slice":
                s = [resolve_bound(m, x, len(m.o(c).data)) for x in slice_idx(m, k)]
                items = m.iterate(v)
                m.w(c).data[slice(*s)] = items
                return
            j = norm_index(m, c, base_val(k), "list assignment index out of range")
            m.w(c).data[j] = v
            return
        if h.kind == "opaque":
            return
    m.raise_("TypeError", "object does not support item assignment")


def delitem(m, c, k):
    if c.__class__ is Sym:
        return
    if c.__class__ is Ref:
        h = m.o(c)
        if h.cls is not None:
            f = m.class_lookup(h.cls, "__delitem__")
            if f is not None and f.__class__ is Ref:
                m.call(f, [c, k], {})
                return
        if h.kind == "dict":
            dict_del(m, c, k)
            return
        if h.kind == "list":
            if k.__class__ is Ref and m.o(k).kind == "slice":
                s = [resolve_bound(m, x, len(m.o(c).data)) for x in slice_idx(m, k)]
                del m.w(c).data[slice(*s)]
                return
            j = norm_index(m, c, base_val(k))
            m.w(c).data.pop(j)
            return
    m.raise_("TypeError", "object does not support item deletion")


# ---------------------------------------------------------------------- dicts and sets
def find_key(m, ref, k):
    """Host key of k in the dict/set, or None.  Forks for summary members."""
    hk = m.hk(k)
    d = m.o(ref).data
    if hk.__class__ is Oth:
        if hk in d and m.fork("other member present"):
            return hk
        return None
    if hk in d:
        return hk
    if hk.__class__ is Sym:
        for x in list(d):
            if m.eq(hk, x):
                return x
        return None
    if d and (hk.__class__ is Num or any(x.__class__ in (Sym, Num) for x in d)):
        for x in list(d):
            if x.__class__ in (Sym, Num) or (hk.__class__ is Num and x.__class__ in (int, float)):
                if m.eq(hk, x):
                    return x
    return None


def has_key(m, ref, k):
    return find_key(m, ref, k) is not None


def missing(m, ref, k, what="KeyError"):
    if m.hk(k).__class__ is Oth:
        # an unsuccessful lookup of a summary member is symmetric to that of a distinguished one
        m.oth_pruned += 1
        raise Prune()
    m.raise_("KeyError", k)


def dict_get(m, ref, k):
    h = m.o(ref)
    x = find_key(m, ref, k)
    if x is not None:
        return star_val(m, m.o(ref).data[x][1])
    if h.cls is not None:
        f = m.class_lookup(h.cls, "__missing__")
        if f is not None:
            return m.call(m.bind(f, ref, h.cls), [k], {})
    missing(m, ref, k)


def dict_set(m, ref, k, v):
    hk = m.hk(k)
    h = m.w(ref)
    d = h.data
    if h.attrs is not None and "!of" in h.attrs and k.__class__ is str:
        m.w(h.attrs["!of"]).attrs[k] = v       # the __dict__ of an object
    if hk.__class__ is Oth:
        old = d.get(hk)
        vals = (old[1].vals if old else frozenset()) | {v}
        d[hk] = (k, Star(vals))
        return
    x = find_key(m, ref, k) if (hk.__class__ in (Sym, Num) or any(y.__class__ in (Sym, Num) for y in d)) else (hk if hk in d else None)
    d = m.w(ref).data
    if x is not None:
        d[x] = (d[x][0], v)
    else:
        d[hk] = (k, v)


def dict_del(m, ref, k):
    x = find_key(m, ref, k)
    if x is None:
        missing(m, ref, k)
    oth_del(m, ref, x)


def oth_del(m, ref, x):
    if x.__class__ is Oth:
        if m.fork("last other member removed"):
            del m.w(ref).data[x]
        return
    del m.w(ref).data[x]


def dict_update(m, ref, v):
    if v.__class__ is Ref and m.o(v).kind == "dict":
        for k, x in list(m.o(v).data.values()):
            if x.__class__ is Star:
                for y in sorted(x.vals, key=repr):
                    dict_set(m, ref, k, y)
            else:
                dict_set(m, ref, k, x)
        return
    ok, keys = m.getattr_opt(v, "keys")
    if ok and v.__class__ is Ref and m.o(v).kind == "inst":
        for k in m.iterate(m.call(keys, [], {})):
            dict_set(m, ref, k, getitem(m, v, k))
        return
    if v.__class__ is Sym:
        return
    for kv in m.iterate(v):
        k, x = m.iterate(kv)
        dict_set(m, ref, k, x)


@meth("dict", "__init__")
def _(m, a, kw):
    if len(a) > 1:
        dict_update(m, a[0], a[1])
    for k, v in kw.items():
        dict_set(m, a[0], k, v)


@meth("dict", "update")
def _(m, a, kw):
    if len(a) > 1:
        dict_update(m, a[0], a[1])
    for k, v in kw.items():
        dict_set(m, a[0], k, v)


@meth("dict", "get")
def _(m, a, kw):
    x = find_key(m, a[0], a[1])
    if x is None:
        return a[2] if len(a) > 2 else kw.get("default")
    return star_val(m, m.o(a[0]).data[x][1])


@meth("dict", "setdefault")
def _(m, a, kw):
    x = find_key(m, a[0], a[1])
    if x is not None:
        return star_val(m, m.o(a[0]).data[x][1])
    v = a[2] if len(a) > 2 else None
    setitem(m, a[0], a[1], v)
    return v


@meth("dict", "pop")
def _(m, a, kw):
    x = find_key(m, a[0], a[1])
    if x is None:
        if len(a) > 2:
            return a[2]
        missing(m, a[0], a[1])
    v = star_val(m, m.o(a[0]).data[x][1])
    oth_del(m, a[0], x)
    return v


@meth("dict", "popitem")
def _(m, a, kw):
    d = m.o(a[0]).data
    if not d:
        m.raise_("KeyError", "popitem(): dictionary is empty")
    last = kw.get("last", a[1] if len(a) > 1 else True)
    k = list(d)[-1 if m.truth(last) else 0]
    e = d[k]
    v = star_val(m, e[1])
    oth_del(m, a[0], k)
    return (e[0], v)


@meth("dict", "move_to_end")
def _(m, a, kw):
    hk = m.hk(a[1])
    d = m.w(a[0]).data
    if hk not in d:
        missing(m, a[0], a[1])
    e = d.pop(hk)
    last = kw.get("last", a[2] if len(a) > 2 else True)
    if m.truth(last):
        d[hk] = e
    else:
        nd = {hk: e}
        nd.update(d)
        m.w(a[0]).data = nd


@meth("dict", "clear")
def _(m, a, kw):
    m.w(a[0]).data = {}


@meth("dict", "copy", "__copy__")
def _(m, a, kw):
    h = m.o(a[0])
    return m.new("dict", m.classes["dict"] if not user(m, h.cls) else h.cls, dict(h.attrs) if h.attrs is not None else None, dict(h.data))


@meth("dict", "keys")
def _(m, a, kw):
    return m.new("view", m.classes["dict_view"], None, ("keys", a[0]))


@meth("dict", "values")
def _(m, a, kw):
    return m.new("view", m.classes["dict_view"], None, ("values", a[0]))


@meth("dict", "items")
def _(m, a, kw):
    return m.new("view", m.classes["dict_view"], None, ("items", a[0]))


@meth("dict", "__contains__")
def _(m, a, kw):
    return has_key(m, a[0], a[1])


@meth("dict", "__getitem__")
def _(m, a, kw):
    return dict_get(m, a[0], a[1])


@meth("dict", "__setitem__")
def _(m, a, kw):
    dict_set(m, a[0], a[1], a[2])


@meth("dict", "__delitem__")
def _(m, a, kw):
    dict_del(m, a[0], a[1])


@meth("type", "__call__")
def _(m, a, kw):
    return m.make_instance(a[0], a[1:], kw)


@meth("dict", "fromkeys")
def _(m, a, kw):
    r = m.mkdict()
    src, rest = a[1], a[2:]
    for k in m.iterate(src):
        dict_set(m, r, k, rest[0] if rest else None)
    return r


for _c in ("list", "tuple", "set", "frozenset", "deque", "dict_view", "range"):
    @meth(_c, "__len__")
    def _(m, a, kw):
        return length_native(m, a[0])

    @meth(_c, "__contains__")
    def _(m, a, kw):
        return contains_native(m, a[0], a[1])

    @meth(_c, "__iter__")
    def _(m, a, kw):
        return iter_native(m, a[0])
_REG[("dict", "__len__")] = _REG[("list", "__len__")]
_REG[("dict", "__iter__")] = _REG[("list", "__iter__")]


def iter_native(m, v):
    v0 = base_val(v)
    if v0.__class__ is tuple:
        return new_iter(m, ["seq", v0, 0, 0])
    h = m.o(v)
    if h.kind == "list":
        return new_iter(m, ["seq", v, 0, 0])
    if h.kind == "dict":
        return new_iter(m, ["dict", v, 0, len(h.data), "keys", 0])
    if h.kind == "set":
        return new_iter(m, ["dict", v, 0, len(h.data), "set", 0])
    if h.kind == "view":
        return new_iter(m, ["dict", h.data[1], 0, len(m.o(h.data[1]).data), h.data[0], 0])
    return get_iter(m, v)


def length_native(m, v):
    v0 = base_val(v)
    if v0.__class__ in (tuple, str, bytes):
        return len(v0)
    h = m.o(v)
    if h.kind in ("list", "dict", "set"):
        n = sum(1 for x in h.data if x.__class__ not in (Star, Oth))
        if n == len(h.data):
            return n
        return star_len(m, v, n)
    return length(m, v)


def contains_native(m, c, x):
    if base_val(c).__class__ is tuple:
        return any(m.eq(x, y) for y in base_val(c))
    h = m.o(c)
    if h.kind in ("dict", "set"):
        return has_key(m, c, x)
    if h.kind == "list":
        return list_find(m, c, x) is not None
    return any(m.eq(x, y) for y in m.iterate(c))


@meth("list", "__getitem__")
def _(m, a, kw):
    h = m.o(a[0])
    if a[1].__class__ is Ref and m.o(a[1]).kind == "slice":
        s = [resolve_bound(m, x, len(h.data)) for x in slice_idx(m, a[1])]
        return m.mklist(h.data[slice(*s)])
    return h.data[norm_index(m, a[0], base_val(a[1]))]


def set_add(m, ref, x):
    hk = m.hk(x)
    d = m.o(ref).data
    if hk in d:
        return
    if hk.__class__ in (Sym, Num) and find_key(m, ref, x) is not None:
        return
    m.w(ref).data[hk] = x


def is_setlike(m, v):
    return v.__class__ is Ref and (m.o(v).kind == "set" or (m.o(v).kind == "view" and m.o(v).data[0] in ("keys", "items")))


def set_data(m, v):
    if v.__class__ is Ref and m.o(v).kind == "set":
        return dict(m.o(v).data)
    return {m.hk(x): x for x in m.iterate(v)}


def set_op(m, op, a, b):
    x, y = set_data(m, a), set_data(m, b)
    for s in (x, y):
        for k in list(s):
            if k.__class__ is Oth:
                if op == "|":
                    continue
    if op == "|":
        r = dict(x)
        for k, v in y.items():
            r.setdefault(k, v)
    elif op == "&":
        r = {k: v for k, v in x.items() if k in y}
    elif op == "-":
        r = {k: v for k, v in x.items() if k not in y or k.__class__ is Oth}
    else:
        r = {k: v for k, v in x.items() if k not in y or k.__class__ is Oth}
        r.update({k: v for k, v in y.items() if k not in x or k.__class__ is Oth})
    cls = m.o(a).cls if m.o(a).kind == "set" and not user(m, m.o(a).cls) else m.classes["set"]
    return m.new("set", cls, None, r)


@meth("set", "__init__")
def _(m, a, kw):
    m.w(a[0]).data = {}
    if len(a) > 1:
        for x in m.iterate(a[1]):
            set_add(m, a[0], x)


@meth("frozenset", "__init__")
def _(m, a, kw):
    _REG[("set", "__init__")](m, a, kw)


@meth("set", "add")
def _(m, a, kw):
    set_add(m, a[0], a[1])


@meth("set", "remove")
def _(m, a, kw):
    x = find_key(m, a[0], a[1])
    if x is None:
        missing(m, a[0], a[1])
    oth_del(m, a[0], x)


@meth("set", "discard")
def _(m, a, kw):
    x = find_key(m, a[0], a[1])
    if x is not None:
        oth_del(m, a[0], x)


@meth("set", "pop")
def _(m, a, kw):
    d = m.o(a[0]).data
    if not d:
        m.raise_("KeyError", "pop from an empty set")
    ks = list(d)
    k = ks[m.choose(len(ks), "set.pop")]
    v = d[k]
    oth_del(m, a[0], k)
    return v


@meth("set", "clear")
def _(m, a, kw):
    m.w(a[0]).data = {}


@meth("set", "update")
def _(m, a, kw):
    for s in a[1:]:
        for x in m.iterate(s):
            set_add(m, a[0], x)


def _setm(name, op):
    def fn(m, a, kw):
        r = a[0]
        if len(a) == 1:
            return m.new("set", m.o(r).cls, None, dict(m.o(r).data))
        for o in a[1:]:
            r = set_op(m, op, r, o)
        return r
    for c in ("set", "frozenset"):
        _REG[(c, name)] = fn


_setm("union", "|")
_setm("intersection", "&")
_setm("difference", "-")
_setm("symmetric_difference", "^")


def _setiu(name, op):
    def fn(m, a, kw):
        for o in a[1:]:
            r = set_op(m, op, a[0], o)
            m.w(a[0]).data = dict(m.o(r).data)
    _REG[("set", name)] = fn


_setiu("intersection_update", "&")
_setiu("difference_update", "-")
_setiu("symmetric_difference_update", "^")

for _c in ("set", "frozenset", "dict_view"):
    @meth(_c, "isdisjoint")
    def _(m, a, kw):
        y = set_data(m, a[1])
        return not any(k in y for k in set_data(m, a[0]))

    @meth(_c, "issubset")
    def _(m, a, kw):
        y = set_data(m, a[1])
        return all(k in y for k in set_data(m, a[0]))

    @meth(_c, "issuperset")
    def _(m, a, kw):
        x = set_data(m, a[0])
        return all(k in x for k in set_data(m, a[1]))

    @meth(_c, "copy")
    def _(m, a, kw):
        return m.new("set", m.o(a[0]).cls, None, dict(m.o(a[0]).data))


@meth("tuple", "__new__")
def _(m, a, kw):
    v = tuple(m.iterate(a[1])) if len(a) > 1 else ()
    return wrap(m, a[0], "tuple", v)


@meth("tuple", "index")
def _(m, a, kw):
    for i, x in enumerate(base_val(a[0])):
        if m.eq(x, a[1]):
            return i
    m.raise_("ValueError", "tuple.index(x): x not in tuple")


@meth("tuple", "count")
def _(m, a, kw):
    return sum(1 for x in base_val(a[0]) if m.eq(x, a[1]))


@meth("tuple", "__eq__")
def _(m, a, kw):
    b = base_val(a[1])
    if b.__class__ is not tuple:
        return NOTIMPL
    return m.eq(base_val(a[0]), b)


@meth("tuple", "__hash__")
def _(m, a, kw):
    return 0


@meth("range", "__new__")
def _(m, a, kw):
    v = [base_val(x) for x in a[1:]]
    if len(v) == 1:
        v = [0, v[0], 1]
    elif len(v) == 2:
        v = [v[0], v[1], 1]
    return m.new("rangeobj", m.classes["range"], None, tuple(v))


@meth("property", "__new__")
def _(m, a, kw):
    v = list(a[1:]) + [None] * (3 - len(a[1:]))
    return m.new("property", m.classes["property"], None,
                 (kw.get("fget", v[0]), kw.get("fset", v[1]), kw.get("fdel", v[2])))


@meth("property", "setter")
def _(m, a, kw):
    g = m.o(a[0]).data
    return m.new("property", m.classes["property"], None, (g[0], a[1], g[2]))


@meth("property", "getter")
def _(m, a, kw):
    g = m.o(a[0]).data
    return m.new("property", m.classes["property"], None, (a[1], g[1], g[2]))


@meth("property", "deleter")
def _(m, a, kw):
    g = m.o(a[0]).data
    return m.new("property", m.classes["property"], None, (g[0], g[1], a[1]))


@meth("staticmethod", "__new__")
def _(m, a, kw):
    return m.new("staticmethod", m.classes["staticmethod"], None, a[1])


@meth("classmethod", "__new__")
def _(m, a, kw):
    return m.new("classmethod", m.classes["classmethod"], None, a[1])


@meth("slice", "__new__")
def _(m, a, kw):
    v = a[1:]
    v = (None, v[0], None) if len(v) == 1 else (tuple(v) + (None,))[:3]
    return m.new("slice", m.classes["slice"], None, tuple(v))


# generator / coroutine methods
@meth("generator", "send")
def _(m, a, kw):
    return gen_result(m, m.resume(a[0], a[1]))


@meth("generator", "__next__")
def _(m, a, kw):
    return gen_result(m, m.resume(a[0]))


@meth("iterator", "__next__")
def _(m, a, kw):
    r = iter_next(m, a[0])
    if r is None:
        m.raise_("StopIteration")
    return r[0]


@meth("iterator", "__iter__")
def _(m, a, kw):
    return a[0]


_REG[("generator", "__iter__")] = _REG[("iterator", "__iter__")]


def gen_result(m, r):
    if r[0] == "yield":
        return r[1]
    m.raise_("StopIteration", *([r[1]] if r[1] is not None else []))


def throw_arg(m, a):
    v = a[0]
    if v.__class__ is Ref and m.o(v).kind == "class":
        if len(a) > 1 and a[1] is not None:
            v = a[1]
        else:
            v = m.call(v, [], {})
    return PyExc(v)


@meth("generator", "throw")
def _(m, a, kw):
    return gen_result(m, m.resume(a[0], None, throw_arg(m, a[1:])))


@meth("generator", "close")
def _(m, a, kw):
    f = m.o(a[0]).data
    if f is None:
        return None
    if f.pc <= 2 and not f.stack:
        m.w(a[0]).data = None
        return None
    try:
        r = m.resume(a[0], None, m.exc("GeneratorExit"))
    except PyExc as e:
        if m.exc_is(e.val, "GeneratorExit") or m.exc_is(e.val, "StopIteration"):
            return None
        raise
    if r[0] == "yield":
        m.raise_("RuntimeError", "generator ignored GeneratorExit")
    return None


for _n in ("send", "throw", "close"):
    _REG[("coroutine", _n)] = _REG[("generator", _n)]


@meth("coroutine", "__await__")
def _(m, a, kw):
    return a[0]


# async generators
def mk_asend(m, agen):
    return m.new("asend", None, None, [agen, "new", None])


def asend_step(m, ref, send, exc=None):
    h = m.w(ref)
    agen = h.data[0]
    if m.o(agen).data is None:
        if exc is not None:
            raise exc
        m.raise_("StopAsyncIteration")
    try:
        r = m.resume(agen, send if h.data[1] != "new" else h.data[2], exc)
    except PyExc as e:
        raise
    m.w(ref).data[1] = "run"
    if r[0] == "ret":
        m.raise_("StopAsyncIteration")
    v = r[1]
    if v.__class__ is Ref and m.o(v).kind == "wrapped":
        return ("ret", m.o(v).data[0])
    return r


def asend_throw(m, ref, exc):
    return asend_step(m, ref, None, exc)


@meth("async_generator", "__anext__")
def _(m, a, kw):
    return mk_asend(m, a[0])


@meth("async_generator", "__aiter__")
def _(m, a, kw):
    return a[0]


@meth("async_generator", "asend")
def _(m, a, kw):
    return m.new("asend", None, None, [a[0], "new", a[1]])


@meth("async_generator", "athrow")
def _(m, a, kw):
    return m.new("athrow", None, None, [a[0], throw_arg(m, a[1:]).val, False])


@meth("async_generator", "aclose")
def _(m, a, kw):
    return m.new("athrow", None, None, [a[0], "close", False])


# ---------------------------------------------------------------------- awaiting
def get_awaitable(m, v):
    if v.__class__ is Ref:
        h = m.o(v)
        if h.kind in ("coro", "future", "task", "bareyield", "asend", "athrow"):
            return v
        if h.cls is not None and h.kind == "inst":
            f = m.class_lookup(h.cls, "__await__")
            if f is not None:
                return m.call(m.bind(f, v, h.cls), [], {})
        if h.kind == "opaque":
            return m.new("extawait", None, None, [m.unknown(m.fresh("await"))])
        if h.kind == "extawait":
            return v
        if h.kind == "gen":
            return v
    if v.__class__ is Sym:
        return m.new("extawait", None, None, [m.unknown(m.fresh("await"))])
    m.check_modelled(m.type_of(v), "__await__")
    m.raise_("TypeError", f"object {m.o(m.type_of(v)).data.name} can't be used in 'await' expression")


def send(m, recv, v):
    if recv.__class__ is Ref:
        h = m.o(recv)
        k = h.kind
        if k in ("coro", "gen"):
            return m.resume(recv, v)
        if k in ("future", "task"):
            if h.data["st"] == "P":
                return ("yield", recv)
            return ("ret", future_result(m, recv))
        if k == "bareyield":
            if h.data[0]:
                return ("ret", None)
            m.w(recv).data[0] = True
            return ("yield", POINT if len(h.data) > 1 else None)
        if k == "extawait":
            return ("ret", h.data[0])
        if k == "asend":
            return asend_step(m, recv, v)
        if k == "athrow":
            agen, ex, started = h.data
            if started:
                return asend_like(m, recv, agen, v, None)
            m.w(recv).data[2] = True
            if ex == "close":
                f = m.o(agen).data
                if f is None or (f.pc <= 2 and not f.stack):
                    m.w(agen).data = None
                    return ("ret", None)
                ex = m.exc("GeneratorExit").val
                m.w(recv).data[1] = "closing"
            return asend_like(m, recv, agen, None, PyExc(ex))
        if k == "iter":
            r = iter_next(m, recv)
            return ("ret", None) if r is None else ("yield", r[0])
        f = m.class_lookup(m.type_of(recv), "send")
        try:
            if v is None or f is None:
                r = iter_next(m, recv)
                return ("ret", None) if r is None else ("yield", r[0])
            return ("yield", m.call(m.bind(f, recv, m.type_of(recv)), [v], {}))
        except PyExc as e:
            if m.exc_is(e.val, "StopIteration"):
                args = m.o(e.val).attrs["args"]
                return ("ret", args[0] if args else None)
            raise
    if recv.__class__ is Sym:
        return ("ret", m.unknown(m.fresh("await")))
    raise Broken(f"send to {recv!r}")


def asend_like(m, ref, agen, v, exc):
    try:
        r = m.resume(agen, v, exc)
    except PyExc as e:
        if m.o(ref).data[1] == "closing" and (m.exc_is(e.val, "GeneratorExit") or m.exc_is(e.val, "StopAsyncIteration")):
            return ("ret", None)
        raise
    if r[0] == "ret":
        if m.o(ref).data[1] == "closing":
            return ("ret", None)
        m.raise_("StopAsyncIteration")
    x = r[1]
    if x.__class__ is Ref and m.o(x).kind == "wrapped":
        return ("ret", m.o(x).data[0])
    return r


# ---------------------------------------------------------------------- futures and tasks
def call_soon(m, entry):
    m.st.ready.append(entry)


def future_result(m, ref):
    d = m.w(ref).data
    if d["st"] == "C":
        e = m.exc("CancelledError")
        raise e
    if d["st"] == "P":
        m.raise_("InvalidStateError", "Result is not ready.")
    d["retr"] = True
    if d["exc"] is not None:
        raise PyExc(d["exc"])
    return d["res"]


def schedule_cbs(m, ref):
    d = m.w(ref).data
    cbs = d["cbs"]
    d["cbs"] = ()
    for cb in cbs:
        call_soon(m, ("cb", cb, ref))


def fut_set(m, ref, st, res=None, exc=None):
    d = m.w(ref).data
    if d["st"] != "P":
        m.raise_("InvalidStateError", "invalid state")
    d["st"] = st
    d["res"] = res
    d["exc"] = exc
    if m.o(ref).kind == "task":
        d["coro"] = None
        if ref in m.st.tasks:
            m.st.tasks.remove(ref)
    schedule_cbs(m, ref)


def fut_cancel(m, ref):
    h = m.w(ref)
    if h.data["st"] != "P":
        return False
    if h.kind == "task":
        d = h.data
        d["ncan"] += 1
        if d["waiter"] is not None:
            w = d["waiter"]
            if m.truth(m.call_method(w, "cancel")):
                return True
        m.w(ref).data["must"] = True
        return True
    fut_set(m, ref, "C")
    return True


def new_task(m, coro, cls=None):
    t = m.new("task", cls or m.classes["Task"], {}, new_future())
    m.w(t).data["coro"] = coro
    m.st.tasks.append(t)
    call_soon(m, ("step", t, None))
    return t


def task_step(m, t, exc):
    d = m.w(t).data
    if d["st"] != "P":
        return
    if d["must"]:
        if exc is None or not m.exc_is(exc, "CancelledError"):
            exc = m.exc("CancelledError").val
        d["must"] = False
    coro = d["coro"]
    d["waiter"] = None
    prev = m.st.vars.get("current")
    m.st.vars["current"] = t
    try:
        try:
            if coro.__class__ is Ref and m.o(coro).kind in ("coro", "gen"):
                r = m.resume(coro, None, PyExc(exc) if exc is not None else None)
            else:
                r = send(m, coro, None) if exc is None else m.throw_into(coro, PyExc(exc))
        except PyExc as e:
            if m.exc_is(e.val, "StopIteration") and False:
                pass
            if m.exc_is(e.val, "CancelledError"):
                fut_set(m, t, "C")
            else:
                fut_set(m, t, "F", None, e.val)
                m.task_failed(t, e.val)
            return
        if r[0] == "ret":
            if m.o(t).data["must"]:
                m.w(t).data["must"] = False
                fut_set(m, t, "C")
            else:
                fut_set(m, t, "F", r[1])
            return
        v = r[1]
        if v is None:
            call_soon(m, ("step", t, None))
        elif v is POINT:
            m.st.ready.insert(0, ("step", t, None))
            m.boundary = True
        elif v.__class__ is Ref and m.o(v).kind in ("future", "task"):
            if m.o(v).data["st"] != "P":
                call_soon(m, ("wakeup", t, v))
            else:
                m.w(v).data["cbs"] = m.o(v).data["cbs"] + (("wakeup", t),)
            d = m.w(t).data
            d["waiter"] = v
            if d["must"]:
                if m.truth(m.call_method(v, "cancel")):
                    m.w(t).data["must"] = False
        else:
            call_soon(m, ("step", t, m.exc("RuntimeError", "Task got bad yield").val))
    finally:
        m.st.vars["current"] = prev


def exec_ready(m, e):
    k = e[0]
    if k == "step":
        task_step(m, e[1], e[2])
    elif k == "wakeup" or (k == "cb" and e[1].__class__ is tuple and e[1] and e[1][0] == "wakeup"):
        t, f = (e[1], e[2]) if k == "wakeup" else (e[1][1], e[2])
        d = m.o(f).data
        if d["st"] == "C":
            task_step(m, t, m.exc("CancelledError").val)
        elif d["exc"] is not None:
            m.w(f).data["retr"] = True
            task_step(m, t, d["exc"])
        else:
            task_step(m, t, None)
    elif k == "cb":
        try:
            m.call(e[1], [e[2]], {})
        except PyExc as ex:
            m.callback_failed(ex.val)
    elif k == "call":
        try:
            m.call(e[1], list(e[2]), {})
        except PyExc as ex:
            m.callback_failed(ex.val)


@meth("Future", "__init__")
def _(m, a, kw):
    return None


@meth("Task", "__init__")
def _(m, a, kw):
    m.w(a[0]).data["coro"] = a[1]
    m.st.tasks.append(a[0])
    call_soon(m, ("step", a[0], None))


@meth("Future", "done")
def _(m, a, kw):
    return m.o(a[0]).data["st"] != "P"


@meth("Future", "cancelled")
def _(m, a, kw):
    return m.o(a[0]).data["st"] == "C"


@meth("Future", "result")
def _(m, a, kw):
    return future_result(m, a[0])


@meth("Future", "exception")
def _(m, a, kw):
    d = m.w(a[0]).data
    if d["st"] == "C":
        m.raise_("CancelledError")
    if d["st"] == "P":
        m.raise_("InvalidStateError", "Exception is not set.")
    d["retr"] = True
    return d["exc"]


@meth("Future", "set_result")
def _(m, a, kw):
    fut_set(m, a[0], "F", a[1])


@meth("Future", "set_exception")
def _(m, a, kw):
    e = a[1]
    if e.__class__ is Ref and m.o(e).kind == "class":
        e = m.call(e, [], {})
    fut_set(m, a[0], "F", None, e)


@meth("Future", "cancel")
def _(m, a, kw):
    return fut_cancel(m, a[0])


@meth("Task", "cancelling")
def _(m, a, kw):
    return m.o(a[0]).data["ncan"]


@meth("Task", "uncancel")
def _(m, a, kw):
    d = m.w(a[0]).data
    if d["ncan"] > 0:
        d["ncan"] -= 1
    return d["ncan"]


@meth("Task", "get_coro")
def _(m, a, kw):
    return m.o(a[0]).data["coro"]


@meth("Task", "get_name")
def _(m, a, kw):
    return (m.o(a[0]).attrs or {}).get("!name", "task")


@meth("Task", "set_name")
def _(m, a, kw):
    h = m.w(a[0])
    if h.attrs is None:
        h.attrs = {}
    h.attrs["!name"] = a[1]


@meth("Future", "get_loop")
def _(m, a, kw):
    return m.unknown("loop")


@meth("Future", "add_done_callback")
def _(m, a, kw):
    if m.o(a[0]).data["st"] != "P":
        call_soon(m, ("cb", a[1], a[0]))
    else:
        m.w(a[0]).data["cbs"] = m.o(a[0]).data["cbs"] + (a[1],)


@meth("Future", "remove_done_callback")
def _(m, a, kw):
    c = m.o(a[0]).data["cbs"]
    n = tuple(x for x in c if not (x == a[1]))
    m.w(a[0]).data["cbs"] = n
    return len(c) - len(n)


@meth("Future", "__await__", "__iter__")
def _(m, a, kw):
    return a[0]


@modfun("create_task")
def _(m, a, kw):
    c = a[0]
    if not (c.__class__ is Ref and m.o(c).kind in ("coro", "gen", "asend", "extawait")):
        m.raise_("TypeError", "a coroutine was expected")
    return new_task(m, c)


@modfun("iscoroutine")
def _(m, a, kw):
    return a[0].__class__ is Ref and m.o(a[0]).kind == "coro"


@modfun("iscoroutinefunction")
def _(m, a, kw):
    f = a[0]
    while f.__class__ is Bound:
        f = f.func
    return f.__class__ is Ref and m.o(f).kind == "func" and bool(m.o(f).data.code.flags & CO_COROUTINE)


@modfun("isfuture")
def _(m, a, kw):
    return a[0].__class__ is Ref and m.o(a[0]).kind in ("future", "task")


@modfun("is_unknown")
def _(m, a, kw):
    return a[0].__class__ is Sym


@modfun("tracks_done")
def _(m, a, kw):
    """Does the source file creating this queue use task_done/join?"""
    for f in reversed(m.active):
        if "aiok8s/" in f.code.file or "specs/" in f.code.file:
            return f.code.file in m.uses_done
    return True


@modfun("broken")
def _(m, a, kw):
    raise Broken(a[0])


@modfun("current_task")
def _(m, a, kw):
    return m.st.vars.get("current")


@modfun("all_tasks")
def _(m, a, kw):
    return m.mkset(list(m.st.tasks))


@modfun("bare_yield")
def _(m, a, kw):
    return m.new("bareyield", None, None, [False])


@modfun("call_soon")
def _(m, a, kw):
    call_soon(m, ("call", a[0], tuple(a[1:])))
    return None


@modfun("add_timer")
def _(m, a, kw):
    """add_timer(delay, callback, *args) -> timer id"""
    st = m.st
    st.seq += 1
    i = st.seq
    when = N.add(st.now, N.of(base_val(a[0]))) if m.is_num(base_val(a[0])) else None
    if when is None:
        m.raise_("TypeError", "timer delay must be a number")
    st.timers.append((when, i, a[1], tuple(a[2:])))
    return i


@modfun("del_timer")
def _(m, a, kw):
    m.st.timers = [t for t in m.st.timers if t[1] != a[0]]


@modfun("has_timer")
def _(m, a, kw):
    return any(t[1] == a[0] for t in m.st.timers)


@modfun("now")
def _(m, a, kw):
    return m.simp(m.st.now)


@modfun("random01")
def _(m, a, kw):
    n = m.fresh("rand")
    m.st.bounds[n] = (0, False, 1, True)
    return N.atom(n)


@modfun("unknown_num")
def _(m, a, kw):
    """unknown_num(name, lo, lo_open, hi, hi_open, isint)"""
    n = m.fresh(a[0])
    lo = -N.INF if a[1] is None else N.frac(a[1])
    hi = N.INF if a[3] is None else N.frac(a[3])
    m.st.bounds[n] = (lo, bool(a[2]) or lo == -N.INF, hi, bool(a[4]) or hi == N.INF)
    if len(a) > 5 and a[5]:
        m.st.facts[("isint", n)] = True
    return N.atom(n)


@modfun("opaque")
def _(m, a, kw):
    return m.unknown(a[0])


@modfun("overflowing_pow")
def _(m, a, kw):
    b, e = base_val(a[0]), base_val(a[1])
    if b.__class__ in (int, float) and e.__class__ is Num:
        return pow_float(m, float(b), e)
    return num_op(m, "**", float(b) if b.__class__ is int else b, e)


@modfun("ldexp")
def _(m, a, kw):
    x, e = base_val(a[0]), base_val(a[1])
    if e.__class__ is Num:
        return num_op(m, "*", x, pow_float(m, 2.0, e))
    import math
    try:
        return math.ldexp(x, e) if x.__class__ is not Num else num_op(m, "*", x, 2.0 ** e)
    except OverflowError as ex:
        m.raise_("OverflowError", str(ex))


@modfun("hostmath")
def _(m, a, kw):
    import math
    name, args = a[0], [base_val(x) for x in a[1:]]
    if all(x.__class__ in (int, float, bool) for x in args):
        try:
            return getattr(math, name)(*args)
        except (ValueError, OverflowError, TypeError) as ex:
            m.raise_(type(ex).__name__, str(ex))
    return N.atom(m.fresh(name))


@modfun("floor")
def _(m, a, kw):
    v = base_val(a[0])
    if v.__class__ is Num:
        return floor_num(m, v)
    import math
    return math.floor(v)


@modfun("ceil")
def _(m, a, kw):
    v = base_val(a[0])
    if v.__class__ is Num:
        return N.neg(N.of(floor_num(m, N.neg(v))))
    import math
    return math.ceil(v)


# ---------------------------------------------------------------------- deep copy, json
def deepcopy(m, v, memo):
    t = v.__class__
    if t is Ref:
        if v.oid in memo:
            return memo[v.oid]
        h = m.o(v)
        if h.kind == "inst" and h.cls is not None:
            f = m.class_lookup(h.cls, "__deepcopy__")
            if f is not None:
                return m.call(f, [v, m.mkdict()], {})
            enum_base = m.classes.get("Enum")
            if enum_base is not None and m.issub(h.cls, enum_base):
                return v
            r = m.new("inst", h.cls, {})
            memo[v.oid] = r
            m.w(r).attrs = {k: deepcopy(m, x, memo) for k, x in h.attrs.items()}
            return r
        if h.kind in ("list", "dict", "set"):
            r = m.new(h.kind, h.cls, None, None)
            memo[v.oid] = r
            if h.kind == "list":
                m.w(r).data = [deepcopy(m, x, memo) if x.__class__ is not Star else x for x in h.data]
            elif h.kind == "set":
                m.w(r).data = dict(h.data)
            else:
                m.w(r).data = {}
                for k, x in h.data.values():
                    kk = deepcopy(m, k, memo)
                    m.w(r).data[m.hk(kk)] = (kk, deepcopy(m, x, memo) if x.__class__ is not Star else x)
            if h.attrs is not None:
                m.w(r).attrs = {k: deepcopy(m, x, memo) for k, x in h.attrs.items()}
            return r
        return v
    if t is tuple:
        return tuple(deepcopy(m, x, memo) for x in v)
    if t is VSub and v.val.__class__ is tuple:
        return VSub(v.cls, tuple(deepcopy(m, x, memo) for x in v.val))
    return v


@modfun("deepcopy")
def _(m, a, kw):
    return deepcopy(m, a[0], {})


@modfun("shallowcopy")
def _(m, a, kw):
    v = a[0]
    if v.__class__ is Ref:
        h = m.o(v)
        if h.kind in ("inst", "list", "dict", "set"):
            if h.kind == "inst":
                f = m.class_lookup(h.cls, "__copy__")
                if f is not None:
                    return m.call(f, [v], {})
            c = h.copy()
            return m.new(c.kind, c.cls, c.attrs, c.data)
    return v


def jfreeze(m, v):
    v0 = base_val(v)
    t = v0.__class__
    if t in (str, int, float, bool) or v0 is None or t in (Tok, Oth, Fmt, Num, Sym):
        return v0
    if t is tuple:
        return ("!list",) + tuple(jfreeze(m, x) for x in v0)
    if t is Ref:
        h = m.o(v0)
        if h.kind == "list":
            return ("!list",) + tuple(jfreeze(m, x) for x in h.data)
        if h.kind == "dict":
            return ("!dict",) + tuple(sorted(((jkey(m, k), jfreeze(m, x)) for k, x in h.data.values()), key=repr))
    m.raise_("TypeError", "Object is not JSON serializable")


def jkey(m, k):
    k = base_val(k)
    if k is None or k is True or k is False:
        return {None: "null", True: "true", False: "false"}[k]
    if k.__class__ in (int, float):
        return repr(k)
    if k.__class__ in (str, Tok, Oth, Fmt):
        return k
    if k.__class__ in (Num, Sym):
        raise Broken("a number that is not known as a key of JSON")
    m.raise_("TypeError", "keys must be str, int, float, bool or None")


def jthaw(m, v):
    if v.__class__ is tuple:
        if v[0] == "!list":
            return m.mklist([jthaw(m, x) for x in v[1:]])
        return m.mkdict({k: jthaw(m, x) for k, x in v[1:]})
    return v


def jhost(m, v):
    if isinstance(v, list):
        return m.mklist([jhost(m, x) for x in v])
    if isinstance(v, dict):
        return m.mkdict({k: jhost(m, x) for k, x in v.items()})
    return v


@modfun("json_dumps")
def _(m, a, kw):
    return Fmt((("!json", jfreeze(m, a[0])),))


@modfun("json_loads")
def _(m, a, kw):
    v = base_val(a[0])
    if v.__class__ is Fmt and len(v.parts) == 1 and v.parts[0].__class__ is tuple and v.parts[0][0] == "!json":
        return jthaw(m, v.parts[0][1])
    if v.__class__ is str:
        try:
            return jhost(m, _json.loads(v))
        except ValueError as e:
            m.raise_("ValueError", str(e))
    if v.__class__ in (Sym, Tok, Fmt, Oth):
        return m.unknown(m.fresh("json"))
    m.raise_("TypeError", "the JSON object must be str, bytes or bytearray")


# ---------------------------------------------------------------------- builtin functions
@fun("len")
def _(m, a, kw):
    return length(m, a[0])


@fun("isinstance")
def _(m, a, kw):
    return m.isinstance_(a[0], a[1])


@fun("issubclass")
def _(m, a, kw):
    cs = a[1] if a[1].__class__ is tuple else (a[1],)
    return any(m.issub(a[0], c) for c in cs)


@fun("callable")
def _(m, a, kw):
    return abc_check(m, "Callable", a[0])


@fun("hasattr")
def _(m, a, kw):
    return m.getattr_opt(a[0], a[1])[0]


@fun("getattr")
def _(m, a, kw):
    if len(a) > 2:
        ok, v = m.getattr_opt(a[0], a[1])
        return v if ok else a[2]
    return m.getattr(a[0], a[1])


@fun("setattr")
def _(m, a, kw):
    m.setattr(a[0], a[1], a[2])


@fun("delattr")
def _(m, a, kw):
    m.delattr(a[0], a[1])


@fun("id")
def _(m, a, kw):
    v = a[0]
    return v.oid + 10 ** 9 if v.__class__ is Ref else m.unknown("id")


@fun("hash")
def _(m, a, kw):
    # Taken to be without collisions: the hash of a value is told by the value
    k = m.hk(a[0])
    if k.__class__ is int or k.__class__ is bool:
        return int(k)
    return k if k.__class__ is tuple and k and k[0] == "!h" else ("!h", k)


@fun("repr", "ascii")
def _(m, a, kw):
    return to_repr(m, a[0])


@fun("print")
def _(m, a, kw):
    return None


@fun("format")
def _(m, a, kw):
    return format_value(m, a[0], 0, a[1] if len(a) > 1 else None)


@fun("iter")
def _(m, a, kw):
    if len(a) == 2:
        return new_iter(m, ["callable", a[0], a[1]])
    return get_iter(m, a[0])


@fun("next")
def _(m, a, kw):
    if len(a) == 1 and a[0].__class__ is Ref and m.o(a[0]).kind == "gen":
        return gen_result(m, m.resume(a[0]))
    r = iter_next(m, a[0])
    if r is None:
        if len(a) > 1:
            return a[1]
        m.raise_("StopIteration")
    return r[0]


@fun("enumerate")
def _(m, a, kw):
    return new_iter(m, ["enumerate", get_iter(m, a[0]), a[1] if len(a) > 1 else kw.get("start", 0)])


@fun("zip")
def _(m, a, kw):
    return new_iter(m, ["zip", tuple(get_iter(m, x) for x in a)])


@fun("map")
def _(m, a, kw):
    return new_iter(m, ["map", a[0], tuple(get_iter(m, x) for x in a[1:])])


@fun("filter")
def _(m, a, kw):
    return new_iter(m, ["filter", a[0], get_iter(m, a[1])])


@fun("reversed")
def _(m, a, kw):
    f = m.class_lookup(m.type_of(a[0]), "__reversed__")
    if f is not None and f.__class__ is Ref:
        return m.call(f, [a[0]], {})
    if a[0].__class__ is Ref and m.o(a[0]).kind == "list":
        return new_iter(m, ["seq", tuple(reversed(m.o(a[0]).data)), 0, 0])
    return new_iter(m, ["seq", tuple(reversed(m.iterate(a[0]))), 0, 0])


@fun("sorted")
def _(m, a, kw):
    return m.mklist(do_sort(m, m.iterate(a[0]), kw.get("key"), m.truth(kw.get("reverse", False))))


@fun("any")
def _(m, a, kw):
    it = get_iter(m, a[0])
    while True:
        r = iter_next(m, it)
        if r is None:
            return False
        if m.truth(r[0]):
            return True


@fun("all")
def _(m, a, kw):
    it = get_iter(m, a[0])
    while True:
        r = iter_next(m, it)
        if r is None:
            return True
        if not m.truth(r[0]):
            return False


def minmax(op):
    def fn(m, a, kw):
        items = m.iterate(a[0]) if len(a) == 1 else a
        key = kw.get("key")
        if not items:
            if "default" in kw:
                return kw["default"]
            m.raise_("ValueError", "arg is an empty sequence")
        best = items[0]
        bk = m.call(key, [best], {}) if key is not None else best
        for x in items[1:]:
            k = m.call(key, [x], {}) if key is not None else x
            if m.order(k, bk, op):
                best, bk = x, k
        return best
    return fn


_FUN["min"] = minmax("<")
_FUN["max"] = minmax(">")


@fun("sum")
def _(m, a, kw):
    r = a[1] if len(a) > 1 else kw.get("start", 0)
    for x in m.iterate(a[0]):
        r = binop(m, "+", r, x)
    return r


@fun("abs")
def _(m, a, kw):
    v = base_val(a[0])
    if v.__class__ is Num:
        return v if not m.num_sign_is(v, {-1}) else N.neg(v)
    return abs(v)


@fun("round")
def _(m, a, kw):
    v = base_val(a[0])
    if v.__class__ is Num:
        return v if m.num_is_int(v) else N.atom(("int", N.add(v, N.of(0.5))))
    return round(*[base_val(x) for x in a])


@fun("pow")
def _(m, a, kw):
    if len(a) > 2 and a[2] is not None:
        x = [base_val(y) for y in a]
        if all(y.__class__ is int for y in x):
            return pow(*x)
        raise Broken("power modulo an unknown number")
    return binop(m, "**", a[0], a[1])


@fun("divmod")
def _(m, a, kw):
    return (binop(m, "//", a[0], a[1]), binop(m, "%", a[0], a[1]))


@fun("vars")
def _(m, a, kw):
    return m.getattr(a[0], "__dict__")


@fun("dir", "globals", "locals", "__import__", "open", "input", "eval", "exec", "compile", "memoryview", "bytearray",
     "chr", "ord", "hex", "bin", "oct")
def _(m, a, kw):
    return m.unknown("builtin")


@fun("aiter")
def _(m, a, kw):
    return m.call_method(a[0], "__aiter__")


@fun("anext")
def _(m, a, kw):
    if len(a) > 1:
        return m.call(m.getattr(m.import_module("_anext"), "default"), [a[0], a[1]], {})
    return m.call_method(a[0], "__anext__")


@modfun("register_class")
def _(m, a, kw):
    m.classes[a[0]] = a[1]


@modfun("instance_dict_set")
def _(m, a, kw):
    m.w(a[0]).attrs[a[1]] = a[2]


@modfun("has_instance_attr")
def _(m, a, kw):
    h = m.o(a[0])
    return h.attrs is not None and a[1] in h.attrs
