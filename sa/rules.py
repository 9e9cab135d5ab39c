"""Rules over the syntax tree and the call graph of the library: X01, X02, X03.

The project is parsed from the repository on every run.  Callees are resolved through the module's imports, the
enclosing class, and the types of attributes and variables as far as they follow from constructor calls; a call whose
callee cannot be resolved is resolved by name only if every function of that name in the library is of one kind.
Each rule is tried on a small positive and a small negative example on every run.
"""
import ast
import os

SKIP_DIRS = {"testing", "tests", "__pycache__"}
# names the standard library uses for synchronous methods of its containers
COMMON = {"add", "update", "get", "put", "pop", "append", "remove", "discard", "clear", "set", "cancel", "close", "index", "insert", "extend",
          "keys", "items", "values", "copy", "replace", "stop", "reset", "run", "start", "wait", "join", "send", "throw", "result", "exception"}


class Fn:
    def __init__(self, mod, cls, node, outer):
        self.mod, self.cls, self.node, self.outer = mod, cls, node, outer
        self.name = node.name if not isinstance(node, ast.Lambda) else "<lambda>"
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.gen = False
        self.locals = {}           # nested functions
        parts = []
        f = self
        while f is not None:
            parts.append(f.name)
            if f.cls is not None and f.outer is None:
                parts.append(f.cls.name)
            f = f.outer
        self.qual = ".".join(reversed(parts))

    def where(self, node):
        return f"{self.qual} ({self.mod.path}:{getattr(node, 'lineno', 0)})"


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods = {}
        self.attrs = {}            # attribute -> set of class names (mod, cls) or ("asyncio", kind)
        self.bases = []


class Mod:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.funcs, self.classes, self.imports = {}, {}, {}
        self.globals = {}          # module variables and their types


def own(node, *types):
    """The nodes of a function body, without those of nested functions and classes."""
    out = []
    stack = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    if isinstance(node, list):
        stack = list(node)
    while stack:
        n = stack.pop(0)
        if not types or isinstance(n, types):
            out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack[:0] = list(ast.iter_child_nodes(n))
    return out


def within(stmts, *types):
    """Nodes below statements, nested functions left out."""
    out = []
    stack = list(stmts)
    while stack:
        n = stack.pop(0)
        if not types or isinstance(n, types):
            out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack[:0] = list(ast.iter_child_nodes(n))
    return out


class Project:
    def __init__(self, sources):
        """sources: {module name: (path, text)}"""
        self.mods, self.fns = {}, []
        for name, (path, text) in sorted(sources.items()):
            self.mods[name] = Mod(name, path, ast.parse(text, path))
        for m in self.mods.values():
            self.collect(m)
        self.by_name = {}
        for f in self.fns:
            self.by_name.setdefault(f.name, []).append(f)
        for m in self.mods.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    k = self.ref(m, b)
                    if isinstance(k, Cls):
                        c.bases.append(k)
        for m in self.mods.values():
            top = Fn(m, None, ast.parse("def module(): pass").body[0], None)
            for n in m.tree.body:
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            m.globals[t.id] = self.type_of(top, n.value) or {("?",)}
        self.given = {}            # keyword or field name -> functions passed under it
        self.params = {}           # (function, parameter) -> types passed by the library itself
        for _ in range(3):
            for m in self.mods.values():
                for c in m.classes.values():
                    self.attributes(c)
            for f in self.fns:
                for call in own(f.node, ast.Call):
                    self.passed(f, call)
        for f in self.fns:
            for call in own(f.node, ast.Call):
                for kw in call.keywords:
                    if kw.arg:
                        for g in self.value_functions(f, kw.value):
                            self.given.setdefault(kw.arg, set()).add(g)

    # -------------------------------------------------------------- collection
    def collect(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    m.imports[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom) and n.module:
                for a in n.names:
                    full = n.module + "." + a.name
                    m.imports[a.asname or a.name] = ("mod", full) if full in self.mods or not n.module.startswith("aiok8s") else ("obj", n.module, a.name)

        def visit(node, cls, outer):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Fn(m, cls, ch, outer)
                    f.gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(ch))
                    self.fns.append(f)
                    if outer is not None:
                        outer.locals[ch.name] = f
                    elif cls is not None:
                        cls.methods[ch.name] = f
                    else:
                        m.funcs[ch.name] = f
                    visit(ch, cls, f)
                elif isinstance(ch, ast.ClassDef):
                    c = Cls(m, ch)
                    if outer is None:
                        m.classes[ch.name] = c
                    visit(ch, c, None if outer is None else outer)
                else:
                    visit(ch, cls, outer)
        visit(m.tree, None, None)

    def attributes(self, c):
        for f in list(c.methods.values()):
            for n in own(f.node, ast.Assign, ast.AnnAssign):
                if n.value is None:
                    continue
                targets = n.targets if isinstance(n, ast.Assign) else [n.target]
                t = self.type_of(f, n.value)
                for tg in targets:
                    if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and tg.value.id == "self":
                        c.attrs.setdefault(tg.attr, set()).update(t or {("?",)})

    def passed(self, fn, call):
        gs, _ = self.callees(fn, call, False)
        for g in gs:
            a = g.node.args
            names = [x.arg for x in a.args]
            if g.cls is not None and names and names[0] in ("self", "cls"):
                names = names[1:]
            pairs = list(zip(names, call.args)) + [(k.arg, k.value) for k in call.keywords if k.arg]
            for name, value in pairs:
                if isinstance(value, ast.Starred):
                    break
                t = self.type_of(fn, value)
                if t:
                    self.params.setdefault((g, name), set()).update(t)

    # -------------------------------------------------------------- resolution
    def ref(self, m, node, fn=None):
        """The module, class or function an expression names, if that is known."""
        if isinstance(node, ast.Name):
            f = fn
            while f is not None:
                if node.id in f.locals:
                    return f.locals[node.id]
                if any(a.arg == node.id for a in f.node.args.args + f.node.args.kwonlyargs):
                    return None
                f = f.outer
            if node.id in m.funcs:
                return m.funcs[node.id]
            if node.id in m.classes:
                return m.classes[node.id]
            imp = m.imports.get(node.id)
            if imp and imp[0] == "mod":
                return self.mods.get(imp[1], ("ext", imp[1]))
            if imp:
                mm = self.mods.get(imp[1])
                if mm:
                    return mm.funcs.get(imp[2]) or mm.classes.get(imp[2])
                return ("ext", imp[1] + "." + imp[2])
            return None
        if isinstance(node, ast.Attribute):
            b = self.ref(m, node.value, fn)
            if isinstance(b, Mod):
                return b.funcs.get(node.attr) or b.classes.get(node.attr)
            if isinstance(b, tuple):
                return ("ext", b[1] + "." + node.attr)
        return None

    def type_of(self, fn, node, depth=0):
        """Set of types of an expression: Cls, ("ext", name), or None if unknown."""
        if isinstance(node, ast.Await) or depth > 4:
            return None
        if isinstance(node, ast.Call):
            r = self.ref(fn.mod, node.func, fn)
            if isinstance(r, Cls):
                return {r}
            if isinstance(r, Fn) and not r.is_async:
                out = set()
                for ret in own(r.node, ast.Return):
                    if ret.value is not None:
                        out |= self.type_of(r, ret.value, depth + 1) or {("?",)}
                return out or None
            if isinstance(r, tuple):
                return {r}
            return None
        if isinstance(node, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set, ast.SetComp, ast.Tuple, ast.Constant, ast.JoinedStr)):
            return {("ext", "builtins")}
        if isinstance(node, ast.Name):
            if node.id == "self" and fn.cls is not None:
                return {fn.cls}
            f = fn
            while f is not None:
                vals = [a.value for a in own(f.node, ast.Assign) if any(isinstance(t, ast.Name) and t.id == node.id for t in a.targets)]
                if any(a.arg == node.id for a in f.node.args.args + f.node.args.kwonlyargs):
                    t = self.params.get((f, node.id))
                    return t | {("?",)} if t else None
                if vals:
                    out = set()
                    for v in vals:
                        if isinstance(v, ast.Name) and v.id == node.id:
                            continue
                        out |= self.type_of(f, v, depth + 1) or {("?",)}
                    return out
                f = f.outer
            return fn.mod.globals.get(node.id)
        if isinstance(node, ast.Attribute):
            bs = self.type_of(fn, node.value, depth + 1)
            if not bs:
                return None
            out = set()
            for b in bs:
                if isinstance(b, Cls):
                    t = self.attr_types(b, node.attr)
                    out |= t or {("?",)}
                else:
                    out.add(("?",))
            return out
        return None

    def attr_types(self, c, name, seen=()):
        if name in c.attrs:
            return c.attrs[name]
        for b in c.bases:
            if b not in seen:
                t = self.attr_types(b, name, seen + (c,))
                if t:
                    return t
        return None

    def method(self, c, name, seen=()):
        if name in c.methods:
            return c.methods[name]
        for b in c.bases:
            if b not in seen:
                r = self.method(b, name, seen + (c,))
                if r:
                    return r
        return None

    def subclasses(self, c):
        out = []
        for m in self.mods.values():
            for k in m.classes.values():
                if c in k.bases:
                    out.append(k)
        return out

    def callees(self, fn, call, by_name=False, given=True):
        """(functions the call may run, whether that is all it may run)"""
        f = call.func
        r = self.ref(fn.mod, f, fn)
        if isinstance(r, Fn):
            return {r}, True
        if isinstance(r, Cls):
            i = self.method(r, "__init__")
            return ({i} if i else set()), True
        if isinstance(r, tuple):
            return set(), True
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and fn.cls is not None:
                out = {self.method(b, f.attr) for b in fn.cls.bases} - {None}
                return out, bool(out)
            ts = self.type_of(fn, f.value)
            if ts:
                out, exact = set(), True
                for t in ts:
                    if isinstance(t, Cls):
                        g = self.method(t, f.attr)
                        if g:
                            out.add(g)
                        else:
                            exact = False
                            out |= self.given.get(f.attr, set()) if given and f.attr in t.attrs else set()
                        for s in self.subclasses(t):
                            if f.attr in s.methods:
                                out.add(s.methods[f.attr])
                    elif t[0] == "?":
                        exact = False
                if exact:
                    return out, True
                if out:
                    return out, False
            if given and f.attr in self.given:
                return set(self.given[f.attr]), False
            if by_name and f.attr not in COMMON:
                c = [g for g in self.by_name.get(f.attr, []) if g.cls is not None and g.outer is None]
                return set(c), False
        elif given and isinstance(f, ast.Name) and f.id in self.given:
            return set(self.given[f.id]), False
        return set(), False

    def value_functions(self, fn, node):
        r = self.ref(fn.mod, node, fn)
        if isinstance(r, Fn):
            return {r}
        if isinstance(node, ast.Attribute):
            ts = self.type_of(fn, node.value) or ()
            return {g for g in (self.method(t, node.attr) for t in ts if isinstance(t, Cls)) if g}
        return set()


def load(repo):
    src = {}
    root = os.path.join(repo, "aiok8s")
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
        for f in sorted(files):
            if f.endswith(".py") and not f.startswith("test_") and not f.startswith("fake_"):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, repo)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                src[name] = (rel, open(p, encoding="utf-8").read())
    return src


def viol(rule, fn, node, label, detail):
    return {"label": label, "detail": detail, "construct": fn.where(node), "trail": [f"rule {rule}", f"in {fn.where(node)}"]}


# ------------------------------------------------------------------ X01
STD_FUNCTIONS = {"asyncio.sleep", "asyncio.wait", "asyncio.wait_for"}
STD_METHODS = {"asyncio.Queue": {"get", "put", "join"}, "asyncio.PriorityQueue": {"get", "put", "join"}, "asyncio.LifoQueue": {"get", "put", "join"},
               "asyncio.Event": {"wait"}, "asyncio.Condition": {"wait", "wait_for", "acquire"}, "asyncio.Lock": {"acquire"},
               "asyncio.Semaphore": {"acquire"}, "asyncio.BoundedSemaphore": {"acquire"}}


def library_coroutine(p, fn, call):
    """The coroutine function of asyncio that the call certainly is one of, or None."""
    r = p.ref(fn.mod, call.func, fn)
    if isinstance(r, tuple):
        return r[1] if r[1] in STD_FUNCTIONS else None
    if isinstance(call.func, ast.Attribute):
        ts = p.type_of(fn, call.func.value)
        if ts and all(isinstance(t, tuple) and call.func.attr in STD_METHODS.get(t[1] if len(t) > 1 else "", ()) for t in ts):
            return f"{sorted(t[1] for t in ts)[0]}.{call.func.attr}"
    return None


def misused(fn, names, assign):
    """A coroutine kept under a name: is it only ever treated as if it were the result?"""
    uses, bad = [], None
    parents = {}
    for n in ast.walk(fn.node):
        for ch in ast.iter_child_nodes(n):
            parents[ch] = n
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load):
            uses.append(n)
    if not uses:
        return "its result is never used"
    stores = [n for n in ast.walk(fn.node) if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, (ast.Store, ast.Del))]
    if len(stores) != len(names):
        return None
    for n in uses:
        up, child = parents.get(n), n
        while isinstance(up, (ast.BoolOp, ast.UnaryOp)):
            up, child = parents.get(up), up
        if isinstance(up, (ast.If, ast.While, ast.Assert)) and up.test is child or isinstance(up, (ast.Subscript, ast.BinOp, ast.FormattedValue)) \
                or isinstance(up, ast.For) and up.iter is child or isinstance(up, ast.Attribute) and up.attr not in ("close", "send", "throw"):
            bad = "its result is used without being awaited"
        elif isinstance(up, ast.Compare) and not any(isinstance(o, (ast.Is, ast.IsNot)) for o in up.ops):
            bad = "its result is used without being awaited"
        else:
            return None
    return bad


def x01(p):
    """The result of every call of an async function is awaited, returned, passed on, or kept under a name that is used."""
    out, sites, unresolved = [], 0, 0
    for fn in p.fns:
        parents = {}
        for n in own(fn.node):
            for ch in ast.iter_child_nodes(n):
                parents[ch] = n
        for call in own(fn.node, ast.Call):
            par = parents.get(call)
            # what a call does whose receiver is unknown is judged by its name only if nothing is made of its result
            fs, exact = p.callees(fn, call, isinstance(par, ast.Expr), False)
            fs = {g for g in fs if g.name != "__init__"}
            std = library_coroutine(p, fn, call)
            if not fs and not std:
                continue
            kinds = {g.is_async and not g.gen for g in fs} or {True}
            if kinds == {False}:
                continue
            if kinds != {True}:
                unresolved += 1
                continue
            sites += 1
            bad = None
            if par is None or isinstance(par, ast.Expr):
                bad = "its result is dropped" if isinstance(par, ast.Expr) else None
            elif isinstance(par, (ast.If, ast.While, ast.Assert)) and getattr(par, "test", None) is call:
                bad = "its result is tested without being awaited"
            elif isinstance(par, (ast.Compare, ast.BinOp, ast.UnaryOp, ast.Subscript, ast.Attribute, ast.FormattedValue)):
                bad = "its result is used without being awaited"
            elif isinstance(par, ast.BoolOp):
                up = par
                while isinstance(up, (ast.BoolOp, ast.UnaryOp)):
                    up = parents.get(up)
                if isinstance(up, (ast.If, ast.While, ast.Assert)) or call is not par.values[-1]:
                    bad = "its result is tested without being awaited"
            elif isinstance(par, (ast.For, ast.comprehension)) and par.iter is call:
                bad = "its result is iterated over without being awaited"
            elif isinstance(par, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
                ts = par.targets if isinstance(par, ast.Assign) else [par.target]
                if any(isinstance(t, (ast.Tuple, ast.List)) for t in ts):
                    bad = "its result is unpacked without being awaited"
                elif all(isinstance(t, ast.Name) for t in ts):
                    bad = misused(fn, {t.id for t in ts}, par)
            if bad:
                out.append(viol("X01", fn, call, "an asynchronous call is forgotten",
                                f"{ast.unparse(call.func)}() is asynchronous ({std or ', '.join(sorted(g.qual for g in fs))}) and {bad}"))
    return out, sites, {"async call sites": sites, "call sites of mixed names": unresolved, "functions": len(p.fns)}


# ------------------------------------------------------------------ X02
def lock_of(p, fn, expr, alias):
    """(owner class, attribute, via self) of a lock expression."""
    if isinstance(expr, ast.Attribute):
        ts = p.type_of(fn, expr.value) or set()
        cs = [t for t in ts if isinstance(t, Cls)]
        if len(cs) == 1:
            own_ = owner(p, cs[0], expr.attr)
            if own_ is not None:
                a = alias.get((own_.name, own_.mod.name, expr.attr), expr.attr)
                return (own_.mod.name, own_.name, a), isinstance(expr.value, ast.Name) and expr.value.id == "self"
    return None


def owner(p, c, attr):
    if attr in c.attrs:
        return c
    for b in c.bases:
        r = owner(p, b, attr)
        if r is not None:
            return r
    return None


def is_lock_type(ts):
    return bool(ts) and any(isinstance(t, tuple) and t[0] == "ext" and t[1] in ("asyncio.Lock", "asyncio.Condition", "asyncio.Semaphore", "asyncio.BoundedSemaphore")
                            for t in ts)


def x02(p):
    alias = {}
    for m in p.mods.values():
        for c in m.classes.values():
            for f in c.methods.values():
                for n in own(f.node, ast.Assign):
                    t = n.targets[0]
                    if isinstance(t, ast.Attribute) and isinstance(n.value, ast.Call):
                        r = p.ref(m, n.value.func, f)
                        if isinstance(r, tuple) and r[1] == "asyncio.Condition":
                            args = list(n.value.args) + [k.value for k in n.value.keywords if k.arg == "lock"]
                            for a in args:
                                if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == "self":
                                    alias[(c.name, m.name, t.attr)] = a.attr
    out, sites = [], 0
    direct = {}                    # fn -> [(lock, via self, with node, body)]
    for fn in p.fns:
        for n in own(fn.node, ast.AsyncWith):
            for item in n.items:
                e = item.context_expr
                ts = p.type_of(fn, e)
                if is_lock_type(ts):
                    k = lock_of(p, fn, e, alias)
                    if k:
                        sites += 1
                        direct.setdefault(fn, []).append((k[0], k[1], n, n.body))
        # explicit acquire: released in a finally
        for n in own(fn.node, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr == "acquire" and is_lock_type(p.type_of(fn, n.func.value)):
                sites += 1
                name = ast.unparse(n.func.value)
                k = lock_of(p, fn, n.func.value, alias)
                body = released(fn.node, n, name)
                if body is None:
                    out.append(viol("X02", fn, n, "a lock is released on every exit",
                                    f"{name} is acquired, and not released in the finally of a try that follows at once"))
                elif k:
                    direct.setdefault(fn, []).append((k[0], k[1], n, body))
    # nested in one function, on the same object
    calls = {}
    for fn in p.fns:
        calls[fn] = [(c, p.callees(fn, c)[0]) for c in own(fn.node, ast.Call)]
    # locks taken by a function on its own self, transitively through self calls
    selfs = {fn: {k for k, s, _, _ in direct.get(fn, ()) if s} for fn in p.fns}
    anys = {fn: {k for k, _, _, _ in direct.get(fn, ())} for fn in p.fns}
    changed = True
    while changed:
        changed = False
        for fn in p.fns:
            for c, gs in calls[fn]:
                if handed_over(fn, c):
                    continue
                on_self = isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "self" \
                    or isinstance(c.func, ast.Name) \
                    or isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Call) and ast.unparse(c.func.value.func) == "super"
                for g in gs:
                    if on_self and not selfs[g] <= selfs[fn]:
                        selfs[fn] |= selfs[g]
                        changed = True
                    if not anys[g] <= anys[fn]:
                        anys[fn] |= anys[g]
                        changed = True
    edges = {}
    for fn, ls in direct.items():
        for k, s, node, body in ls:
            for inner in within(body, ast.AsyncWith):
                for item in inner.items:
                    e = item.context_expr
                    if is_lock_type(p.type_of(fn, e)):
                        k2 = lock_of(p, fn, e, alias)
                        if k2 and k2[0] == k and s and k2[1]:
                            out.append(viol("X02", fn, inner, "no task acquires a lock it already holds", f"{k[1]}.{k[2]} is taken twice"))
                        elif k2 and k2[0] != k:
                            edges.setdefault((k, k2[0]), (fn, inner))
            for c in within(body, ast.Call):
                if handed_over(fn, c):
                    continue
                gs = p.callees(fn, c)[0]
                on_self = isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "self" or isinstance(c.func, ast.Name)
                for g in gs:
                    if s and on_self and k in selfs[g]:
                        out.append(viol("X02", fn, c, "no task acquires a lock it already holds",
                                        f"{ast.unparse(c.func)}() takes {k[1]}.{k[2]}, which is held here"))
                    for k2 in anys[g]:
                        if k2 != k:
                            edges.setdefault((k, k2), (fn, c))
    # opposite orders
    graph = {}
    for a, b in edges:
        graph.setdefault(a, set()).add(b)
    for (a, b), (fn, node) in sorted(edges.items(), key=lambda x: x[0]):
        seen, stack = set(), [b]
        while stack:
            x = stack.pop()
            if x == a:
                out.append(viol("X02", fn, node, "no two locks are acquired in opposite orders",
                                f"{b[1]}.{b[2]} is taken under {a[1]}.{a[2]}, and elsewhere the other way round"))
                break
            if x in seen:
                continue
            seen.add(x)
            stack.extend(graph.get(x, ()))
    return out, sites, {"acquisitions": sites, "locks": len({k for ls in direct.values() for k, *_ in ls}),
                        "order": sorted(f"{a[1]}.{a[2]} > {b[1]}.{b[2]}" for a, b in edges)}


def handed_over(fn, call):
    """The call only makes a coroutine that another task runs."""
    for n in own(fn.node, ast.Call):
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        if name in ("ensure_future", "create_task") and call in n.args:
            return True
    return False


def released(fnode, acquire, name):
    """The body guarded by the finally that releases, if it follows the acquire at once."""
    for n in own(fnode):
        for field in ("body", "orelse", "finalbody"):
            stmts = getattr(n, field, None)
            if isinstance(stmts, list):
                r = _released(stmts, acquire, name)
                if r is not None:
                    return r
    return _released(fnode.body, acquire, name)


def _released(stmts, acquire, name):
    for i, st in enumerate(stmts):
        if isinstance(st, ast.stmt) and not isinstance(st, (ast.If, ast.While, ast.For, ast.Try, ast.With, ast.AsyncWith, ast.AsyncFor,
                                                            ast.FunctionDef, ast.AsyncFunctionDef)) and any(x is acquire for x in ast.walk(st)):
            for nxt in stmts[i + 1:]:
                if isinstance(nxt, ast.Try):
                    for x in within(nxt.finalbody, ast.Call):
                        if isinstance(x.func, ast.Attribute) and x.func.attr == "release" and ast.unparse(x.func.value) == name:
                            return nxt.body
                    return None
                if any(isinstance(x, (ast.Await, ast.Return, ast.Raise, ast.Call)) for x in within([nxt])):
                    return None
    return None


# ------------------------------------------------------------------ X03
CATCHES = {"BaseException", "Exception", "CancelledError", "asyncio.CancelledError", "concurrent.futures.CancelledError",
           "asyncio.exceptions.CancelledError", "futures.CancelledError"}


def awaits(stmts):
    return within(stmts, ast.Await, ast.AsyncFor, ast.AsyncWith)


def names_caught(h):
    if h.type is None:
        return {"BaseException"}
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return {ast.unparse(t) for t in ts}


def always_raises(stmts):
    """Does every path through the statements raise (or return the caught exception's re-raise)?"""
    for st in stmts:
        if isinstance(st, ast.Raise):
            return True
        if isinstance(st, ast.If) and st.orelse and always_raises(st.body) and always_raises(st.orelse):
            return True
        if isinstance(st, (ast.Return, ast.Continue, ast.Break)):
            return False
        if isinstance(st, ast.Try):
            if any(isinstance(x, (ast.Return, ast.Continue, ast.Break)) for x in within(st.finalbody)):
                return False
            if always_raises(st.finalbody):
                return True
            if always_raises(st.body) and not st.handlers:
                return True
        if isinstance(st, (ast.With, ast.AsyncWith)) and always_raises(st.body):
            return True
    return False


def reraises(h):
    """The handler ends by raising the cancellation again (or raises it first thing for cancellations)."""
    if not always_raises(h.body):
        for st in h.body:
            # if isinstance(e, CancelledError): raise
            if isinstance(st, ast.If) and "CancelledError" in ast.unparse(st.test) and any(isinstance(x, ast.Raise) for x in st.body):
                return True
        return False
    for r in within(h.body, ast.Raise):
        if r.exc is None:
            continue
        if isinstance(r.exc, ast.Name) and r.exc.id == h.name:
            continue
        t = ast.unparse(r.exc)
        if "CancelledError" in t:
            continue
        return False
    return True


def cancelled_here(fn, try_):
    """Every await in the body waits for tasks this function has cancelled itself."""
    cancelled = set()
    for c in own(fn.node, ast.Call):
        if isinstance(c.func, ast.Attribute) and c.func.attr == "cancel" and c.lineno <= try_.body[-1].end_lineno:
            cancelled.add(ast.unparse(c.func.value))
    for a in awaits(try_.body):
        if not isinstance(a, ast.Await) or ast.unparse(a.value) not in cancelled:
            return False
    return True


def x03(p):
    out, sites = [], 0
    for fn in p.fns:
        if not fn.is_async:
            continue
        for t in own(fn.node, ast.Try):
            if not awaits(t.body):
                if t.finalbody and awaits(t.body + t.handlers + t.orelse):
                    pass
                else:
                    continue
            sites += 1
            for h in t.handlers:
                caught = names_caught(h)
                if not (caught & CATCHES):
                    continue
                if not awaits(t.body):
                    break
                # concurrent.futures and asyncio name the same exception; before Python 3.8 it is an Exception
                if reraises(h) or cancelled_here(fn, t):
                    if caught & (CATCHES - {"Exception"}):
                        break      # later handlers see no cancellation
                    if "Exception" in caught:
                        break
                    continue
                out.append(viol("X03", fn, h, "a cancellation is swallowed",
                                f"except {ast.unparse(h.type) if h.type else ''} around an await catches cancellation and goes on"))
                break
            for x in within(t.finalbody, ast.Return, ast.Break, ast.Continue):
                if isinstance(x, (ast.Break, ast.Continue)) and any(x in within([l]) for l in within(t.finalbody, ast.For, ast.While, ast.AsyncFor)):
                    continue
                out.append(viol("X03", fn, x, "a cancellation is swallowed", "a finally that leaves the block drops the cancellation in flight"))
        for w in own(fn.node, ast.With):
            for item in w.items:
                e = item.context_expr
                if isinstance(e, ast.Call) and ast.unparse(e.func) in ("suppress", "contextlib.suppress") and awaits(w.body):
                    sites += 1
                    if {ast.unparse(a) for a in e.args} & CATCHES:
                        fake = ast.Try(body=w.body, handlers=[], orelse=[], finalbody=[])
                        if not cancelled_here(fn, fake):
                            out.append(viol("X03", fn, w, "a cancellation is swallowed", f"{ast.unparse(e)} around an await"))
    return out, sites, {"try blocks around awaits": sites}


RULES = {"X01": x01, "X02": x02, "X03": x03}
# at least this many instances were confirmed by hand
LEAST = {"X01": 60, "X02": 30, "X03": 12}

EXAMPLES = {
    "X01": ("""
class A:
    async def work(self):
        pass
    async def use(self):
        self.work()
""", """
import asyncio
class A:
    async def work(self):
        pass
    async def use(self):
        await self.work()
        t = self.work()
        if t is not None:
            return asyncio.ensure_future(t)
"""),
    "X02": ("""
import asyncio
class A:
    def __init__(self):
        self._l = asyncio.Lock()
    async def f(self):
        async with self._l:
            await self.g()
    async def g(self):
        async with self._l:
            pass
""", """
import asyncio
class A:
    def __init__(self):
        self._l = asyncio.Lock()
    async def f(self):
        async with self._l:
            pass
        await self.g()
    async def g(self):
        await self._l.acquire()
        try:
            pass
        finally:
            self._l.release()
"""),
    "X03": ("""
async def f(g):
    try:
        await g()
    except Exception:
        pass
""", """
import asyncio
async def f(g):
    try:
        await g()
    except asyncio.CancelledError:
        raise
    except Exception:
        pass
"""),
}


def run(rule, opts):
    repo = os.environ.get("SA_REPO", "/repo")
    bad, good = EXAMPLES[rule]
    if len(RULES[rule](Project({"aiok8s.e": ("e.py", bad)}))[0]) != 1 or RULES[rule](Project({"aiok8s.e": ("e.py", good)}))[0]:
        raise AssertionError(f"rule {rule} fails its own examples")
    p = Project(load(repo))
    v, n, detail = RULES[rule](p)
    if n < LEAST[rule]:
        raise AssertionError(f"rule {rule} matches {n} sites only, {LEAST[rule]} were confirmed")
    return {"violations": v, "instances": n, "sites": detail, "functions": {f"{f.mod.path}:{f.node.lineno} {f.qual}": 1 for f in p.fns}}
