"""Abstract values, abstract heap, code decoding."""
import dis

from . import num as N


# ----------------------------------------------------------------------------- values
class Ref:
    """Pointer to an abstract heap object."""
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return o.__class__ is Ref and o.oid == self.oid

    def __hash__(self):
        return self.oid * 7919 + 13

    def __repr__(self):
        return f"@{self.oid}"


class Tok:
    """One distinguished but arbitrary hashable value (equal only to itself)."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return o.__class__ is Tok and o.name == self.name

    def __hash__(self):
        return hash(("Tok", self.name))

    def __repr__(self):
        return f"<{self.name}>"


class Oth:
    """Summary of all values of a domain that are not distinguished tokens."""
    __slots__ = ("dom",)

    def __init__(self, dom):
        self.dom = dom

    def __eq__(self, o):
        return o.__class__ is Oth and o.dom == self.dom

    def __hash__(self):
        return hash(("Oth", self.dom))

    def __repr__(self):
        return f"<other {self.dom}>"


class Sym:
    """A completely unknown value (external library, unmodelled code)."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return o.__class__ is Sym and o.name == self.name

    def __hash__(self):
        return hash(("Sym", self.name))

    def __repr__(self):
        return f"<unknown {self.name}>"


class Fmt:
    """A string built from unknown parts; parts are host strings and abstract values."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    def __eq__(self, o):
        return o.__class__ is Fmt and o.parts == self.parts

    def __hash__(self):
        return hash(("Fmt", self.parts))

    def __repr__(self):
        return "f'" + "".join(p if isinstance(p, str) else "{%r}" % (p,) for p in self.parts) + "'"


class VSub:
    """Immutable instance of a subclass of tuple/str/int/float (NamedTuples included)."""
    __slots__ = ("cls", "val")

    def __init__(self, cls, val):
        self.cls = cls
        self.val = val

    def __eq__(self, o):
        return o.__class__ is VSub and o.cls == self.cls and o.val == self.val

    def __hash__(self):
        return hash((self.cls, self.val))

    def __repr__(self):
        return f"VSub({self.val!r})"


class Star:
    """List segment: zero or more elements, each one of `vals`."""
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = vals

    def __eq__(self, o):
        return o.__class__ is Star and o.vals == self.vals

    def __hash__(self):
        return hash(("Star", self.vals))

    def __repr__(self):
        return f"{set(self.vals)!r}*"


class NFunc:
    """Native (host-modelled) function; canonical by name."""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __eq__(self, o):
        return o is self

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"<native {self.name}>"


class Bound:
    """Bound method: func is Ref to a function or an NFunc."""
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __eq__(self, o):
        return o.__class__ is Bound and o.func == self.func and o.self == self.self

    def __hash__(self):
        return hash((self.func, self.self))

    def __repr__(self):
        return f"<bound {self.func!r} of {self.self!r}>"


class _Null:
    def __repr__(self):
        return "NULL"


NULL = _Null()
UNBOUND = _Null()

CONST_TYPES = (type(None), bool, int, float, str, bytes, complex, type(Ellipsis))


# ----------------------------------------------------------------------------- heap
class HObj:
    """Abstract heap object.

    kind: inst class func module list dict set cell coro gen agen iter future task super
          property staticmethod classmethod slice opaque
    """
    __slots__ = ("kind", "cls", "attrs", "data")

    def __init__(self, kind, cls, attrs=None, data=None):
        self.kind = kind
        self.cls = cls
        self.attrs = attrs
        self.data = data

    def copy(self):
        d = self.data
        if d.__class__ is list:
            d = list(d)
        elif d.__class__ is dict:
            d = dict(d)
        elif d.__class__ is Frame:
            d = d.copy()
        return HObj(self.kind, self.cls, dict(self.attrs) if self.attrs is not None else None, d)

    def __repr__(self):
        return f"HObj({self.kind},{self.attrs},{self.data})"


class ClassData:
    __slots__ = ("name", "bases", "mro", "base", "meta", "module", "qualname")

    def __init__(self, name, bases, mro, base, meta=None, module=None, qualname=None):
        self.name = name
        self.bases = bases
        self.mro = mro
        self.base = base        # native layout: object list dict set tuple str int float exc future ...
        self.meta = meta
        self.module = module
        self.qualname = qualname or name


class FuncData:
    __slots__ = ("code", "globals", "defaults", "kwdefaults", "closure", "name")

    def __init__(self, code, globals_, defaults, kwdefaults, closure, name):
        self.code = code
        self.globals = globals_     # oid of module object
        self.defaults = defaults    # tuple of values
        self.kwdefaults = kwdefaults  # tuple of (name, value)
        self.closure = closure      # tuple of Ref(cell)
        self.name = name


class Frame:
    __slots__ = ("code", "locals", "stack", "pc", "globals", "closure", "exc", "ns", "kw", "gen", "func")

    def __init__(self, code, locals_, globals_, closure, ns=None):
        self.code = code
        self.locals = locals_
        self.stack = []
        self.pc = 0
        self.globals = globals_
        self.closure = closure
        self.exc = None
        self.ns = ns
        self.kw = ()
        self.gen = None
        self.func = None

    def copy(self):
        f = Frame(self.code, list(self.locals), self.globals, self.closure, self.ns)
        f.stack = list(self.stack)
        f.pc = self.pc
        f.exc = self.exc
        f.kw = self.kw
        f.gen = self.gen
        f.func = self.func
        return f


# ----------------------------------------------------------------------------- code
CO_VARARGS, CO_VARKEYWORDS, CO_GENERATOR, CO_COROUTINE, CO_ASYNC_GENERATOR = 0x4, 0x8, 0x20, 0x80, 0x200


class CodeInfo:
    """Decoded code object of the analysed program (CPython 3.12 bytecode, never executed)."""
    _cache = {}
    __slots__ = ("name", "qualname", "file", "first", "ins", "consts", "names", "varnames", "cellfree",
                 "nlocalsplus", "argc", "posonly", "kwonly", "flags", "exc", "ncell", "nfree", "lines",
                 "localsplus", "uid", "inrepo", "live", "argcells")

    def __init__(self, co, inrepo):
        self.name = co.co_name
        self.qualname = co.co_qualname
        self.file = co.co_filename
        self.first = co.co_firstlineno
        self.names = co.co_names
        self.varnames = co.co_varnames
        self.argc = co.co_argcount
        self.posonly = co.co_posonlyargcount
        self.kwonly = co.co_kwonlyargcount
        self.flags = co.co_flags
        self.inrepo = inrepo
        self.uid = (co.co_filename, co.co_qualname, co.co_firstlineno)
        # localsplus layout: varnames, then cellvars that are not args, then freevars
        lp = list(co.co_varnames)
        for c in co.co_cellvars:
            if c not in lp:
                lp.append(c)
        self.nfree = len(co.co_freevars)
        lp += list(co.co_freevars)
        self.localsplus = lp
        self.nlocalsplus = len(lp)
        ins, offmap, lines = [], {}, []
        line = co.co_firstlineno
        raw = list(dis.get_instructions(co))
        for i in raw:
            offmap[i.offset] = len(ins)
            if i.starts_line is not None:
                line = i.starts_line
            ins.append(i)
            lines.append(line)
        self.lines = lines
        out = []
        hasj = set(dis.hasjrel) | set(dis.hasjabs)
        for i in ins:
            arg = i.arg
            if i.opcode in hasj:
                arg = offmap[i.argval]
            out.append((i.opname, arg))
        self.ins = out
        self.exc = []
        for e in dis._parse_exception_table(co):
            s = offmap.get(e.start)
            end = offmap.get(e.end, len(out))
            self.exc.append((s, end, offmap[e.target], e.depth, e.lasti))
        consts = []
        for c in co.co_consts:
            if hasattr(c, "co_code"):
                c = CodeInfo(c, inrepo)
            elif isinstance(c, frozenset):
                c = ("__frozenset__", tuple(c))
            consts.append(c)
        self.consts = consts
        self.live = _liveness(self)

    def handler(self, pc):
        for s, e, t, d, l in self.exc:
            if s <= pc < e:
                return t, d, l
        return None

    def where(self, pc):
        return f"{self.file}:{self.lines[min(pc, len(self.lines) - 1)]}"

    def __repr__(self):
        return f"<code {self.qualname}>"


_USE = {"LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_DEREF", "STORE_DEREF", "DELETE_DEREF", "LOAD_CLOSURE",
        "LOAD_FROM_DICT_OR_DEREF", "MAKE_CELL", "LOAD_CLASSDEREF", "DELETE_FAST"}
_NOFALL = {"RETURN_VALUE", "RETURN_CONST", "RAISE_VARARGS", "RERAISE", "JUMP_FORWARD", "JUMP_BACKWARD",
           "JUMP_BACKWARD_NO_INTERRUPT", "INTERPRETER_EXIT"}
_JUMPS = {"JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT", "POP_JUMP_IF_FALSE",
          "POP_JUMP_IF_TRUE", "POP_JUMP_IF_NONE", "POP_JUMP_IF_NOT_NONE", "FOR_ITER", "SEND"}


def _liveness(ci):
    """Per instruction: frozenset of local slots that may still be read (classic backward dataflow)."""
    n = len(ci.ins)
    succ = []
    for pc, (op, arg) in enumerate(ci.ins):
        s = []
        if op not in _NOFALL and pc + 1 < n:
            s.append(pc + 1)
        if op in _JUMPS:
            s.append(arg)
        h = ci.handler(pc)
        if h:
            s.append(h[0])
        succ.append(s)
    # inlined comprehensions save (LOAD_FAST_AND_CLEAR) and restore their variables: neither is a use or a definition
    cleared = {arg for op, arg in ci.ins if op == "LOAD_FAST_AND_CLEAR"}
    restore = set()
    for pc, (op, arg) in enumerate(ci.ins):
        if op == "STORE_FAST" and arg in cleared:
            q = pc - 1
            while q >= 0 and ci.ins[q][0] == "STORE_FAST":
                q -= 1
            if ci.ins[q][0] in ("SWAP", "END_FOR"):
                restore.add(pc)
    live = [frozenset()] * (n + 1)
    changed = True
    while changed:
        changed = False
        for pc in range(n - 1, -1, -1):
            op, arg = ci.ins[pc]
            out = frozenset().union(*(live[s] for s in succ[pc])) if succ[pc] else frozenset()
            if pc in restore:
                new = out
            elif op == "STORE_FAST":
                new = out - {arg}
                h = ci.handler(pc)
                if h:
                    new = new | live[h[0]]
            elif op in _USE:
                new = out | {arg}
            else:
                new = out
            if new != live[pc]:
                live[pc] = new
                changed = True
    return live[:n]


# ----------------------------------------------------------------------------- control exceptions
class PyExc(Exception):
    """An abstract Python exception propagating through the analysed program."""

    def __init__(self, val):
        self.val = val


class Prune(Exception):
    """The current path is infeasible or symmetric to another one."""


class Stop(Exception):
    """The current path ends here (violation recorded or goal reached)."""


class Broken(Exception):
    """The analysis cannot continue: unsupported construct or vanished anchor (error exit)."""
