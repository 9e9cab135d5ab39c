"""Fixpoint exploration of the abstract state graph of one driver (most general client)."""
import ast
import collections
import os
import sys
import time

from . import num as N
from .canon import Canon
from .core import *
from .machine import Machine, State

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SA_REPO", "/repo")


class Node:
    __slots__ = ("state", "parent", "prefix", "succ", "progress", "term", "depth")

    def __init__(self, state, parent, prefix, depth):
        self.state = state
        self.parent = parent
        self.prefix = prefix
        self.succ = set()
        self.progress = False
        self.term = False
        self.depth = depth


def memory():
    try:
        with open("/proc/self/statm") as fh:
            return int(fh.read().split()[1]) * 4096
    except (OSError, ValueError, IndexError):
        return 0


class ImportFails(Exception):
    """A module of the analysed library cannot be imported."""


class Explorer:
    def __init__(self, modules, options=None):
        self.m = m = Machine([("aiok8s", REPO), ("specs", HERE), ("", os.path.join(HERE, "models"))])
        m.never_awaited = set()
        m.options.update(options or {})
        m.task_failed = self.task_failed
        m.callback_failed = self.callback_failed
        m.explorer = self
        from . import harness
        harness.install(m)
        self.mods = {}
        for name in modules:
            try:
                self.mods[name] = m.import_module(name)
            except PyExc as e:
                desc = m.exc_desc(e.val)
                if "raised at aiok8s/" in desc and desc.startswith(("ImportError", "ModuleNotFoundError", "NameError", "AttributeError")):
                    raise ImportFails(desc)
                raise Broken(f"importing {name} fails: {desc}")
        self.import_nested()
        m.freeze()
        self.base_limit = m.st.next_oid
        m.st.bounds["T0"] = (0, True, N.INF, True)
        m.st.facts = {}
        self.init = m.st
        self.violations = []
        self.vkeys = set()
        self.checks = collections.Counter()
        self.covers = collections.Counter()
        self.main = None
        self.stats = collections.Counter()
        self.complete = True
        self.notes = []
        self.abandoned = []
        self.max_states = int(self.m.options.get("max_states", 60000))
        self.time_limit = float(self.m.options.get("time_limit", 240))
        self.mem_limit = float(self.m.options.get("mem_limit", 3.2e9))

    def import_nested(self):
        """Modules that functions of the library import when they are called are part of the initial state."""
        m = self.m
        done = set()
        while True:
            paths = [p for p in m.sources if p.startswith(os.path.join(REPO, "aiok8s")) and p not in done]
            if not paths:
                return
            for p in paths:
                done.add(p)
                pkg = os.path.relpath(p, REPO)[:-3].replace(os.sep, ".").rpartition(".")[0]
                names = set()
                for fn in ast.walk(ast.parse(m.sources[p])):
                    if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        continue
                    for n in ast.walk(fn):
                        if isinstance(n, ast.Import):
                            names.update(a.name for a in n.names)
                        elif isinstance(n, ast.ImportFrom):
                            base = n.module or ""
                            if n.level:
                                up = pkg.split(".")[:len(pkg.split(".")) - n.level + 1]
                                base = ".".join(up + ([n.module] if n.module else []))
                            names.add(base)
                            names.update(f"{base}.{a.name}" for a in n.names if m.find_source(f"{base}.{a.name}")[0])
                for n in sorted(names):
                    try:
                        m.import_module(n)
                    except PyExc:
                        m.modules.pop(n, None)

    # ------------------------------------------------------------------ hooks
    def task_failed(self, task, exc):
        m = self.m
        if task == m.st.vars.get("main"):
            return
        n = m.st.vars.get("crashes", ())
        d = m.exc_desc(exc)
        m.trace.append(("crash", d))
        if len(n) < 3:
            m.st.vars["crashes"] = n + (d,)

    def callback_failed(self, exc):
        m = self.m
        d = m.exc_desc(exc)
        m.trace.append(("crash", d))
        n = m.st.vars.get("crashes", ())
        if len(n) < 3:
            m.st.vars["crashes"] = n + (d,)

    def violation(self, label, detail=""):
        """Record a violation on the current path and end the path."""
        m = self.m
        self.pending_violation = (label, detail)
        raise Stop()

    # ------------------------------------------------------------------ one segment
    def idle(self):
        """Nothing is runnable. Returns 'end' or None."""
        m = self.m
        st = m.st
        s = st.vars.get("settle")
        if s:
            st.vars["settle"] = ()
            for f in s:
                if m.o(f).data["st"] == "P":
                    m.natives.fut_set(m, f, "F", None)
            return None
        main = st.vars["main"]
        if m.o(main).data["st"] != "P":
            return "end"
        if st.timers:
            left = st.vars.get("timer_budget")
            if left is None or left > 0:
                if left is not None:
                    st.vars["timer_budget"] = left - 1
                self.fire_earliest()
                return None
        lab = st.vars.get("must")
        self.violation(lab or "the operation the driver waits for never completes", "blocked: " + self.blocked_desc())

    def blocked_desc(self):
        m = self.m
        out = []
        for t in m.st.tasks:
            d = m.o(t).data
            c = d["coro"]
            names = []
            while c.__class__ is Ref and m.o(c).kind in ("coro", "gen") and m.o(c).data.__class__ is Frame:
                f = m.o(c).data
                names.append(f"{f.code.qualname} ({f.code.where(max(f.pc - 1, 0))})")
                c = m.yield_from(f)
            out.append(" -> ".join(names))
        return "; ".join(out[:6])

    def fire_earliest(self):
        m = self.m
        st = m.st
        best = 0
        for i in range(1, len(st.timers)):
            if m.order(m.simp(st.timers[i][0]), m.simp(st.timers[best][0]), "<"):
                best = i
        when, tid, cb, args = m.st.timers[best]
        if m.order(m.simp(when), m.simp(m.st.now), ">"):
            m.st.now = when
        self.fire_due()

    def fire_due(self):
        """Run every timer due at the current time, in order of its deadline."""
        m = self.m
        while True:
            due = [t for t in m.st.timers if m.order(m.simp(t[0]), m.simp(m.st.now), "<=")]
            if not due:
                return
            b = due[0]
            for t in due[1:]:
                if m.order(m.simp(t[0]), m.simp(b[0]), "<"):
                    b = t
            m.st.timers = [t for t in m.st.timers if t[1] != b[1]]
            m.natives.call_soon(m, ("call", b[2], b[3]))

    def run_segment(self, state, prefix, stack):
        """Run from `state` with the recorded choices until a segment boundary."""
        m = self.m
        m.st = state.clone()
        m.prefix = list(prefix)
        m.pos = 0
        m.trace = []
        m.steps = 0
        m.boundary = False
        m.active = []
        m.nat = 0
        m.new_choice_hook = (lambda pos, n: stack.extend(m.prefix[:pos] + [c] for c in range(n - 1, 0, -1))) if stack is not None else None
        progress = False
        n = 0
        main = m.st.vars["main"]
        while True:
            if m.st.ready:
                e = m.st.ready.pop(0)
                if e[0] in ("step", "wakeup") and e[1] == main or (e[0] == "cb" and e[1].__class__ is tuple and e[1][1] == main):
                    progress = True
                m.natives.exec_ready(m, e)
            else:
                r = self.idle()
                if r == "end":
                    return "end", True
            if m.o(main).data["st"] != "P":
                d = m.o(main).data
                if d["exc"] is not None:
                    self.violation("the driver fails with an unexpected exception", m.exc_desc(d["exc"]))
                if d["st"] == "C":
                    self.violation("the driver was cancelled", "")
                return "end", True
            n += 1
            if m.pos > 0 or n >= 64 or m.boundary:
                return "ok", progress

    # ------------------------------------------------------------------ exploration
    def explore(self, modname, func, args=()):
        m = self.m
        t0 = time.time()
        m.st = self.init.clone()
        m.prefix, m.pos, m.trace, m.steps = [], 0, [], 0
        m.new_choice_hook = None
        f = m.o(self.mods[modname]).attrs[func]
        self.violations = []
        self.vkeys = set()
        self.checks = collections.Counter()
        self.covers = collections.Counter()
        m.funcs_seen = {}
        m.lines_seen = set()
        # the driver is started inside a task so that its first step is explored like any other
        coro = m.call(f, list(args), {})
        if not (coro.__class__ is Ref and m.o(coro).kind == "coro"):
            raise Broken(f"{func} is not a coroutine function")
        t = m.natives.new_task(m, coro)
        m.st.vars["main"] = t
        m.st.vars["settle"] = ()
        canon = Canon(m, self.base_limit)
        root = Node(m.st, None, None, 0)
        canon.run()
        visited = {}
        nodes = [root]
        work = collections.deque([0])
        self.found = None
        m.deadline = min(t0 + self.time_limit, float(m.options.get("deadline", t0 + 1e6)))
        nseg = 0
        over = False
        while work:
            ni = work.popleft()
            node = nodes[ni]
            stack = [[]]
            while stack:
                over = self.over(m, t0, nseg, len(nodes), func)
                if over:
                    break
                prefix = stack.pop()
                nseg += 1
                self.pending_violation = None
                try:
                    kind, prog = self.run_segment(node.state, prefix, stack)
                except Prune:
                    node.term = True
                    self.stats["pruned"] += 1
                    continue
                except Stop:
                    node.term = True
                    if self.pending_violation:
                        self.record(ni, nodes, list(m.prefix), *self.pending_violation)
                    continue
                except PyExc as e:
                    raise Broken(f"exception outside any task: {m.exc_desc(e.val)}")
                except Broken as e:
                    if "step limit" in str(e) or "unbounded iteration" in str(e):
                        node.term = True
                        self.record(ni, nodes, list(m.prefix), "a step of the analysed code terminates", str(e))
                        continue
                    # a path the analysis cannot follow is abandoned and counted
                    node.term = True
                    self.complete = False
                    self.stats["abandoned"] += 1
                    if len(self.abandoned) < 5:
                        self.abandoned.append(str(e) + " | " + self.where())
                    continue
                if kind == "end":
                    node.term = True
                    self.stats["ends"] += 1
                    continue
                key = canon.run()
                j = visited.get(key)
                if j is None:
                    j = len(nodes)
                    visited[key] = j
                    nodes.append(Node(m.st, ni, list(m.prefix), node.depth + 1))
                    work.append(j)
                node.succ.add((j, prog))
            node.state = node.state if False else (node.state if ni == 0 else None) if not self.keep else node.state
            if over:
                break
        if not over:
            self.livelock(nodes)
        self.stats["states"] += len(nodes)
        self.stats["segments"] += nseg
        self.stats["steps"] += m.total_steps
        self.nodes = nodes
        return self.violations

    keep = False

    def over(self, m, t0, nseg, nodes, func):
        """Has the exploration of this driver to stop here?"""
        if len(self.violations) >= m.options.get("max_violations", 6):
            self.complete = False
            return True
        now = time.time()
        if self.violations:
            if self.found is None:
                self.found = now
            if now - self.found > m.options.get("grace", 6):
                self.complete = False
                return True
        if nodes > self.max_states or now > m.deadline or nseg % 256 == 0 and memory() > self.mem_limit:
            self.complete = False
            self.notes.append(f"{func}: exploration stopped at {nodes} states after {now-t0:.0f}s")
            return True
        return False

    def where(self):
        m = self.m
        return " <- ".join(f"{f.code.qualname} {f.code.where(f.pc-1)}" for f in reversed(m.active[-6:])) or \
            "; ".join(str(x) for x in m.trace[-6:])

    def livelock(self, nodes):
        """Every reachable state must be able to reach driver progress (AG EF)."""
        n = len(nodes)
        rev = [[] for _ in range(n)]
        good = []
        ok = [False] * n
        for i, nd in enumerate(nodes):
            if nd.term:
                ok[i] = True
            for j, prog in nd.succ:
                rev[j].append(i)
                if prog:
                    ok[i] = True
            if ok[i]:
                good.append(i)
        while good:
            j = good.pop()
            for i in rev[j]:
                if not ok[i]:
                    ok[i] = True
                    good.append(i)
        for i in range(n):
            if not ok[i] and nodes[i].succ:
                lab = "the system makes progress (no endless activity without the awaited outcome)"
                self.record(i, nodes, [], lab, "")
                break

    def record(self, ni, nodes, prefix, label, detail):
        trail, fn = self.trail(ni, nodes, prefix)
        key = (label, fn)
        if key in self.vkeys:
            return
        self.vkeys.add(key)
        self.violations.append({"label": label, "detail": detail, "construct": fn, "trail": trail})

    def trail(self, ni, nodes, prefix):
        """Re-run the path to the violation, collecting the calls and decisions."""
        m = self.m
        chain = []
        i = ni
        while i is not None:
            chain.append(i)
            i = nodes[i].parent
        chain.reverse()
        saved = (m.st, m.prefix, m.pos, m.trace, self.pending_violation)
        st = nodes[0].state
        events = []
        canon = Canon(m, self.base_limit)
        segs = [(nodes[i].prefix) for i in chain[1:]] + [prefix]
        chk, cov = self.checks.copy(), self.covers.copy()
        for p in segs:
            try:
                self.run_segment(st, p, None)
            except (Prune, Stop, Broken, PyExc):
                pass
            events += m.trace
            canon.run()
            st = m.st
        self.checks, self.covers = chk, cov
        where = ""
        for e in reversed(events):
            if e[0] == "call" and "aiok8s/" in e[1]:
                where = e[1]
                break
        out = []
        for e in events:
            s = f"call {e[1]}" if e[0] == "call" else f"{e[0]}: {e[1]}" + (f" -> {e[2]}" if len(e) > 2 else "")
            out.append(s)
        m.st, m.prefix, m.pos, m.trace, self.pending_violation = saved
        return out[-80:], where
