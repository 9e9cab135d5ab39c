"""The driver API (module `sa` inside the analysed world)."""
from . import num as N
from .core import *

_H = {}


def h(name):
    def deco(fn):
        _H[name] = fn
        return fn
    return deco


def install(m):
    ref = m.new("module", None, {"__name__": "sa"})
    at = m.w(ref).attrs
    for n, fn in _H.items():
        at[n] = NFunc("sa." + n, fn)
    m.modules["sa"] = ref


@h("choose")
def _(m, a, kw):
    return m.choose(a[0], a[1] if len(a) > 1 else "")


@h("flag")
def _(m, a, kw):
    return m.choose(2, a[0] if a else "") == 1


@h("pick")
def _(m, a, kw):
    return a[m.choose(len(a), "pick")]


@h("check")
def _(m, a, kw):
    label = a[1]
    m.explorer.checks[label] += 1
    if not m.truth(a[0]):
        m.explorer.violation(label, ", ".join(m.show(x) for x in a[2:]))


@h("fail")
def _(m, a, kw):
    m.explorer.checks[a[0]] += 1
    m.explorer.violation(a[0], ", ".join(m.show(x) for x in a[1:]))


@h("reachable")
def _(m, a, kw):
    """Declares a label that must be evaluated (used by spec modules for non-vacuity)."""
    m.explorer.covers[a[0]] += 1


@h("assume")
def _(m, a, kw):
    if not m.truth(a[0]):
        raise Prune()


@h("stop")
def _(m, a, kw):
    raise Stop()


@h("tok")
def _(m, a, kw):
    return Tok(a[0])


@h("oth")
def _(m, a, kw):
    return Oth(a[0])


@h("is_oth")
def _(m, a, kw):
    return a[0].__class__ is Oth


@h("is_tok")
def _(m, a, kw):
    return a[0].__class__ is Tok


@h("unknown")
def _(m, a, kw):
    return Sym(m.fresh(a[0]))


@h("is_num")
def _(m, a, kw):
    return m.is_num(a[0])


@h("num")
def _(m, a, kw):
    """num(name, lo=None, hi=None, lo_open=False, hi_open=False, isint=False)"""
    lo, hi = kw.get("lo"), kw.get("hi")
    lo = a[1] if len(a) > 1 else lo
    hi = a[2] if len(a) > 2 else hi
    n = m.fresh(a[0])
    l = -N.INF if lo is None else N.frac(lo)
    u = N.INF if hi is None else N.frac(hi)
    m.st.bounds[n] = (l, bool(kw.get("lo_open")) or l == -N.INF, u, bool(kw.get("hi_open")) or u == N.INF)
    if kw.get("isint"):
        m.st.facts[("isint", n)] = True
    return N.atom(n)


@h("settle")
def _(m, a, kw):
    f = m.new("future", m.classes["Future"], {}, m.natives.new_future())
    m.st.vars["settle"] = m.st.vars.get("settle", ()) + (f,)
    return f


@h("fire")
def _(m, a, kw):
    """Let time pass to the earliest timer; False if there is none."""
    if not m.st.timers:
        return False
    m.explorer.fire_earliest()
    return True


@h("timers")
def _(m, a, kw):
    return len(m.st.timers)


@h("next_deadline")
def _(m, a, kw):
    st = m.st
    if not st.timers:
        return None
    best = st.timers[0][0]
    for t in st.timers[1:]:
        if m.order(m.simp(t[0]), m.simp(best), "<"):
            best = t[0]
    return m.simp(best)


@h("advance")
def _(m, a, kw):
    m.st.now = N.add(m.st.now, N.of(a[0].val if a[0].__class__ is VSub else a[0]))
    m.explorer.fire_due()


@h("now")
def _(m, a, kw):
    return m.simp(m.st.now)


@h("must")
def _(m, a, kw):
    m.st.vars["must"] = a[0]
    m.st.vars["timer_budget"] = a[1] if len(a) > 1 else kw.get("timers", 0)


@h("free")
def _(m, a, kw):
    m.st.vars["must"] = None
    m.st.vars["timer_budget"] = None


@h("tasks")
def _(m, a, kw):
    """Pending tasks other than the current one."""
    cur = m.st.vars.get("current")
    return m.mklist([t for t in m.st.tasks if t != cur])


@h("crashes")
def _(m, a, kw):
    return m.mklist(list(m.st.vars.get("crashes", ())))


@h("clear_crashes")
def _(m, a, kw):
    m.st.vars.pop("crashes", None)


@h("note")
def _(m, a, kw):
    m.trace.append(("note", ", ".join(m.show(x) for x in a)))


@h("entail")
def _(m, a, kw):
    """True iff a relation between numbers holds on every concretisation: entail(x, op, y)."""
    x, op, y = a
    p = N.sub(N.of(_v(x)), N.of(_v(y)))
    ss = m.num_sign(p)
    return ss <= {"<": {-1}, "<=": {-1, 0}, "==": {0}, ">=": {0, 1}, ">": {1}, "!=": {-1, 1}}[op]


def _v(x):
    return x.val if x.__class__ is VSub else x


@h("blocked_in")
def _(m, a, kw):
    return m.explorer.blocked_desc()


@h("same")
def _(m, a, kw):
    """Identity of abstract values without any forking."""
    return a[0].__class__ is a[1].__class__ and a[0] == a[1]


@h("type_name")
def _(m, a, kw):
    return m.o(m.type_of(a[0])).data.name


@h("exc")
def _(m, a, kw):
    return m.exc_desc(a[0])


@h("mem")
def _(m, a, kw):
    """Membership by identity, no forking."""
    for x in m.iterate(a[1]):
        if x.__class__ is a[0].__class__ and x == a[0]:
            return True
    return False


@h("debug")
def _(m, a, kw):
    print("DEBUG", *[m.show(x) for x in a])


@h("pending")
def _(m, a, kw):
    return not (m.o(a[0]).data["st"] != "P")


@h("origin")
def _(m, a, kw):
    """Qualified name of the coroutine function a pending task runs."""
    c = m.o(a[0]).data["coro"]
    if c.__class__ is Ref and m.o(c).data.__class__ is Frame:
        return m.o(c).data.code.qualname
    return "?"


@h("inrepo")
def _(m, a, kw):
    """True if the pending task's coroutine is code of the analysed repository."""
    c = m.o(a[0]).data["coro"]
    if c.__class__ is Ref and m.o(c).data.__class__ is Frame:
        return m.o(c).data.code.inrepo
    return False


@h("point")
def _(m, a, kw):
    """Segment boundary without letting anything else run."""
    return m.new("bareyield", None, None, [False, True])
