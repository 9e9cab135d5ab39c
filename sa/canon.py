"""Canonical form of abstract states: garbage removal, renaming, time normalisation, summarising."""
from . import num as N
from .core import *
from .core import NULL, UNBOUND

Num = N.Num
T0 = "T0"


def subst_t0(p, delta):
    """p with T0 replaced by T0 - delta (delta a Num without T0)."""
    if T0 not in p.atoms():
        changed = False
        d = {}
        for m, c in p.t:
            if any(a.__class__ is tuple for a, _ in m):
                mm = N.of(1)
                for a, e in m:
                    a2 = subst_atom(a, delta)
                    changed = changed or a2 is not a
                    for _ in range(abs(e)):
                        mm = N.mul(mm, N.atom(a2) if e > 0 else N.inv(N.atom(a2)))
                d = dict(N.add(N.mk(d), N.mul(N.of(c), mm)).t)
            else:
                d[m] = d.get(m, 0) + c
        return N.mk(d) if changed else p
    rep = N.sub(N.atom(T0), delta)
    out = N.of(0)
    for m, c in p.t:
        mm = N.of(c)
        for a, e in m:
            base = rep if a == T0 else N.atom(subst_atom(a, delta))
            if e < 0:
                base = N.inv(base)
            for _ in range(abs(e)):
                mm = N.mul(mm, base)
        out = N.add(out, mm)
    return out


def subst_atom(a, delta):
    if a.__class__ is tuple:
        new = tuple(subst_t0(x, delta) if x.__class__ is Num else x for x in a)
        return new if new != a else a
    return a


def map_num(v, fn):
    """v with fn applied to every Num inside (tuples and VSub descended); same object if unchanged."""
    t = v.__class__
    if t is Num:
        return fn(v)
    if t is tuple:
        n = tuple([map_num(x, fn) for x in v])
        return n if any(x is not y for x, y in zip(n, v)) else v
    if t is VSub:
        n = map_num(v.val, fn)
        return v if n is v.val else VSub(v.cls, n)
    if t is Bound:
        n = map_num(v.self, fn)
        return v if n is v.self else Bound(v.func, n)
    if t is Star:
        n = frozenset(map_num(x, fn) for x in v.vals)
        return v if n == v.vals else Star(n)
    if t is Fmt:
        n = map_num(v.parts, fn)
        return v if n is v.parts else Fmt(n)
    return v


class Canon:
    def __init__(self, m, base_limit):
        self.m = m
        self.base_limit = base_limit
        self.live_cache = {}

    # -------------------------------------------------------------- time normalisation
    def shift_time(self):
        st = self.m.st
        delta = N.sub(st.now, N.atom(T0))
        if not delta.t:
            return
        def fn(p):
            return subst_t0(p, delta)
        for oid in list(st.heap):
            h = st.heap[oid]
            self._shift_obj(oid, h, fn)
        st.timers = [(fn(w), i, cb, map_num(a, fn)) for w, i, cb, a in st.timers]
        st.ready = [map_num(e, fn) for e in st.ready]
        st.vars = {k: map_num(v, fn) for k, v in st.vars.items()}
        st.facts = {(N.normal(fn(k))[0] if k.__class__ is Num else map_num(k, fn)): v for k, v in st.facts.items()}
        st.now = N.atom(T0)

    def _shift_obj(self, oid, h, fn):
        m = self.m
        ch = False
        na = None
        if h.attrs:
            na = {k: map_num(v, fn) for k, v in h.attrs.items()}
            ch = any(na[k] is not h.attrs[k] for k in na)
        nd = h.data
        d = h.data
        t = d.__class__
        if t is list:
            nd = [map_num(x, fn) for x in d]
            ch = ch or any(x is not y for x, y in zip(nd, d))
        elif t is dict:
            nd = {k: map_num(v, fn) for k, v in d.items()}
            ch2 = any(nd[k] is not d[k] for k in nd)
            if ch2 and h.kind in ("dict", "set"):
                if h.kind == "dict":
                    nd = {m.hk(k): (k, v) for k, v in nd.values()}
                else:
                    nd = {m.hk(v): v for v in nd.values()}
            ch = ch or ch2
        elif t is tuple:
            nd = map_num(d, fn)
            ch = ch or nd is not d
        elif t is Frame:
            nl = [map_num(x, fn) for x in d.locals]
            ns = [map_num(x, fn) for x in d.stack]
            if any(x is not y for x, y in zip(nl, d.locals)) or any(x is not y for x, y in zip(ns, d.stack)):
                nd = d.copy()
                nd.locals = nl
                nd.stack = ns
                ch = True
        if ch:
            self.m.st.heap[oid] = HObj(h.kind, h.cls, na if na is not None else h.attrs, nd)
            self.m.st.owned.discard(oid)

    # -------------------------------------------------------------- summarising
    def summarise(self, h, oid):
        """Collapse runs of undistinguished elements in a list into a segment."""
        k = self.m.options.get("star", 2)
        if not k or h.kind != "list" or len(h.data) < 2:
            return h
        out = []
        ch = False
        for x in h.data:
            if out and x.__class__ in (Oth, Star) and out[-1].__class__ in (Oth, Star):
                p = out[-1]
                a = p.vals if p.__class__ is Star else frozenset([p])
                b = x.vals if x.__class__ is Star else frozenset([x])
                out[-1] = Star(a | b)
                ch = True
                continue
            out.append(x)
        if ch:
            h = HObj(h.kind, h.cls, h.attrs, out)
            self.m.st.heap[oid] = h
            self.m.st.owned.discard(oid)
        return h

    # -------------------------------------------------------------- key
    def run(self):
        m = self.m
        st = m.st
        st.owned = set()
        self.shift_time()
        self.ids = {}
        self.atoms = {}
        self.syms = {}
        self.raw_atoms = set()
        self.raw_syms = set()
        self.queue = []
        self.tids = {t[1]: n for n, t in enumerate(st.timers)}
        out = []
        for oid in sorted(o for o in st.heap if o < self.base_limit):
            out.append(("base", oid, self.obj(st.heap[oid], oid)))
        out.append(("vars", tuple((k, self.enc(st.vars[k])) for k in sorted(st.vars) if st.vars[k] is not None)))
        out.append(("ready", tuple(self.enc(e) for e in st.ready)))
        out.append(("tasks", tuple(self.enc(t) for t in st.tasks)))
        out.append(("timers", tuple((self.enc(w), self.enc(cb), self.enc(a)) for w, i, cb, a in st.timers)))
        i = 0
        q = self.queue
        while i < len(q):
            oid = q[i]
            i += 1
            out.append(self.obj(st.heap[oid], oid))
        # garbage
        ids = self.ids
        dropped = [o for o in st.heap if o >= self.base_limit and o not in ids]
        for o in dropped:
            h = st.heap.pop(o)
            if h.kind == "coro" and h.data.__class__ is Frame and not h.data.stack and \
                    h.data.code.ins[h.data.pc - 1][0] == "RETURN_GENERATOR":
                m.never_awaited.add((h.data.code.qualname, h.data.code.file, h.data.code.first))
        # facts and bounds on live unknowns only
        facts = {}
        fk = []
        for k, v in st.facts.items():
            if self.fact_live(k):
                facts[k] = v
                ek = ("isint", self.atoms.get(k[1], k[1])) if k.__class__ is tuple and k and k[0] == "isint" else self.enc(k)
                fk.append((repr(ek), repr(v) if v.__class__ is not frozenset else repr(sorted(v))))
        st.facts = facts
        live = self.raw_atoms
        st.bounds = {a: b for a, b in st.bounds.items() if a in live or a == T0}
        fk.sort()
        out.append(tuple(fk))
        bk = sorted((repr(self.atoms.get(a, a)), repr(b)) for a, b in st.bounds.items())
        out.append(tuple(bk))
        return tuple(out)

    def fact_live(self, k):
        t = k.__class__
        if t is Num:
            return all(self.atom_live(a) for a in k.atoms())
        if t is tuple:
            if k and k[0] == "isint":
                return self.atom_live(k[1])
            return all(self.fact_live(x) for x in k)
        if t is Sym:
            return k.name in self.raw_syms
        if t is Ref:
            return k.oid in self.ids or k.oid < self.base_limit
        return True

    def atom_live(self, a):
        if a.__class__ is tuple:
            return all(self.fact_live(x) for x in a)
        return a == T0 or a in self.raw_atoms

    def rename(self, name, table):
        base, sep, _ = name.partition("#")
        if not sep:
            return name
        r = table.get(name)
        if r is None:
            r = f"{base}#{len(table)}"
            table[name] = r
        return r

    def enc_atom(self, a):
        if a.__class__ is tuple:
            return tuple(self.enc_num(x) if x.__class__ is Num else x for x in a)
        self.raw_atoms.add(a)
        return self.rename(a, self.atoms) if a.__class__ is str else a

    def enc_num(self, p):
        return ("num", tuple((tuple((self.enc_atom(a), e) for a, e in mm), c) for mm, c in p.t))

    def enc(self, v):
        t = v.__class__
        if t is str or v is None:
            return v
        if t is Ref:
            oid = v.oid
            if oid < self.base_limit:
                return ("B", oid)
            i = self.ids.get(oid)
            if i is None:
                i = len(self.ids)
                self.ids[oid] = i
                self.queue.append(oid)
            return ("R", i)
        if t is int or t is float or t is bool:
            return (t.__name__, v)
        if t is tuple:
            return tuple([self.enc(x) for x in v])
        if t is Tok or t is Oth or t is NFunc:
            return v
        if t is Num:
            return self.enc_num(v)
        if t is Bound:
            return ("bound", self.enc(v.func), self.enc(v.self))
        if t is VSub:
            return ("vsub", self.enc(v.cls), self.enc(v.val))
        if t is Sym:
            self.raw_syms.add(v.name)
            parts = v.name.split(".")
            return ("sym", tuple(self.rename(p, self.syms) for p in parts))
        if t is Star:
            return ("star", tuple(sorted((repr(self.enc(x)) for x in v.vals))))
        if t is Fmt:
            return ("fmt", tuple(self.enc(x) for x in v.parts))
        if v is NULL or v is UNBOUND:
            return "UNB"
        if t is Frame:
            return self.frame(v)
        if t is list:
            return ("L",) + tuple(self.enc(x) for x in v)
        if t is dict:
            return ("D",) + tuple((self.enc(k), self.enc(x)) for k, x in v.items())
        if t is CodeInfo:
            return v.uid
        if t is FuncData:
            return ("F", v.code.uid, v.globals, self.enc(v.defaults), self.enc(v.kwdefaults), self.enc(v.closure))
        if t is ClassData:
            return ("C", v.name, self.enc(v.bases))
        if t is frozenset or t is set:
            return ("fs",) + tuple(sorted(repr(self.enc(x)) for x in v))
        if t is N.Fraction if hasattr(N, "Fraction") else False:
            return ("frac", v)
        return v

    def frame(self, f):
        pc = f.pc
        code = f.code
        live = code.live[pc] if pc < len(code.live) else frozenset()
        loc = f.locals
        return ("frame", code.uid, pc, tuple([(i, self.enc(loc[i])) for i in sorted(live)]),
                tuple([self.enc(x) for x in f.stack]), self.enc(f.exc), self.enc(f.closure),
                self.enc(f.ns) if f.ns is not None else None)

    def obj(self, h, oid):
        h = self.summarise(h, oid)
        d = h.data
        k = h.kind
        if k == "dict":
            ed = tuple([(self.enc(a), self.enc(b)) for a, b in d.values()])
        elif k == "set":
            vals = list(d.values())
            if any(x.__class__ is Ref or x.__class__ is tuple for x in vals):
                ed = tuple([self.enc(x) for x in vals])
            else:
                ed = tuple(sorted((self.enc(x) for x in vals), key=repr))
        elif d.__class__ is list:
            ed = tuple([self.enc(x) for x in d])
        else:
            ed = self.enc(d)
        at = None
        if h.attrs:
            at = tuple([(n, self.enc(h.attrs[n]) if n != "_tid" else self.tids.get(h.attrs[n])) for n in sorted(h.attrs) if n[0] != "!" and n not in ("__context__", "__traceback__")])
        return (k, self.enc(h.cls) if h.cls is not None else None, at, ed)
